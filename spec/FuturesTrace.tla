---------------------------- MODULE FuturesTrace ----------------------------
EXTENDS Futures, TraceCommon
TInit == TraceInit0 /\ InitWith(Tr[1].jit)
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ Is("promise") /\ NewPromise(E.p)
  \/ Is("future") /\ GetFuture(E.p, E.f, E.r)
  \/ Is("swap") /\ Swap(E.p, E.q)
  \/ Is("share") /\ Share(E.f, E.s)
  \/ Is("copy") /\ CopyShared(E.s, E.s2)
  \/ Is("swaps") /\ SwapShared(E.s, E.s2)
  \/ Is("valid") /\ Valid(E.f, E.r)
  \/ Is("query") /\ Query(E.f, E.op, E.r)
  \/ IsCall("set") /\ CallSet(E.t, E.p, E.v)
  \/ IsRet("set") /\ RetSet(E.t, E.r)
  \/ IsCall("destroy") /\ CallDestroy(E.t, E.p)
  \/ IsRet("destroy") /\ RetDestroy(E.t)
  \/ IsCall("get") /\ CallGet(E.t, E.f, E.sh)
  \/ IsRet("get") /\ RetGet(E.t, E.r)
  \/ IsCall("wait") /\ CallWait(E.t, E.f, E.dl, E.tok, E.now)
  \/ IsRet("wait") /\ RetWait(E.t, E.r, E.now)
  \/ IsCall("cancel") /\ CallCancel(E.x)
  \/ IsRet("cancel") /\ RetCancel(E.x)
  \/ Is("idle") /\ Idle(E.now)
  \/ Silent /\ \E p \in pend : LinSet(p)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

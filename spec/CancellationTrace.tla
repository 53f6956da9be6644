------------------------- MODULE CancellationTrace -------------------------
EXTENDS Cancellation, TraceCommon
TInit == TraceInit0 /\ InitWith(Tr[1].jit, Tr[1].spur)
S(x) == {x[i] : i \in 1..Len(x)}
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ IsCall("wait") /\ CallWait(E.t, S(E.toks), E.cv, E.dl, E.now)
  \/ IsRet("wait") /\ RetWait(E.t, E.r, E.now)
  \/ IsCall("sleep") /\ CallSleep(E.t, S(E.toks), E.dl, E.tdl, E.now)
  \/ IsRet("sleep") /\ RetSleep(E.t, E.r, E.now)
  \/ Is("notify") /\ Notify(E.t, E.cv)
  \/ IsCall("cancel") /\ CallTok(E.t, "cancel", E.x)
  \/ IsRet("cancel") /\ RetCancel(E.t, E.x)
  \/ IsCall("reset") /\ CallTok(E.t, "reset", E.x)
  \/ IsRet("reset") /\ RetReset(E.t, E.x, E.r)
  \/ Is("query") /\ Query(S(E.toks), E.c)
  \/ Is("timedout") /\ QueryTime(E.dl, E.r, E.now)
  \/ Is("alive") /\ E.r = B(S(E.toks) \cap canc = {} /\ (IF E.dl < 0 THEN TRUE ELSE E.now < E.dl)) /\ UNCHANGED vars
  \/ Is("idle") /\ Idle(E.now)
  \/ Silent /\ \E p \in pend : LinCancel(p) \/ LinReset(p)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

---------------------------- MODULE SignalsTrace ----------------------------
EXTENDS Signals, TraceCommon
TInit == TraceInit0 /\ InitWith(Tr[1].guarded = 1, Tr[1].policy, Tr[1].popul)
Ts == DOMAIN stk
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ IsCall("inv") /\ CallInv(E.t, "inv", E.v)
  \/ IsRet("inv") /\ RetInv(E.t, "inv")
  \/ IsCall("set") /\ CallInv(E.t, "set", E.v)
  \/ IsRet("set") /\ RetInv(E.t, "set")
  \/ IsCall("conn") /\ CallConn(E.t, E.h, E.async, E.scs)
  \/ IsRet("conn") /\ RetConn(E.t, E.r = "ok")
  \/ IsCall("scs") /\ CallScs(E.t, E.h)
  \/ IsRet("scs") /\ RetScs(E.t)
  \/ IsCall("reset") /\ CallReset(E.t, E.h)
  \/ IsRet("reset") /\ RetReset(E.t)
  \/ Is("begin") /\ (Begin(E.t, E.h, E.v) \/ BeginPop(E.t, E.h, E.v) \/ ExecBegin(E.t, E.h, E.v))
  \/ Is("end") /\ End(E.t, E.h)
  \/ Is("throw") /\ Throw(E.t, E.h)
  \/ Is("exh") /\ (IF E.k = 777 THEN PopThrew(E.t) ELSE Handler(E.t, E.k))
  \/ Is("drained") /\ Drained
  \/ Silent /\ \E t \in Ts : LockSet(t) \/ Snapshot(t) \/ Pass(t) \/ UnlockSet(t) \/ UnlockScs(t) \/ LockConn(t) \/ EnqPop(t) \/ Add(t) \/ LockScs(t) \/ Remove(t) \/ Kill(t)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

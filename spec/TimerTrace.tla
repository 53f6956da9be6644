----------------------------- MODULE TimerTrace -----------------------------
EXTENDS Timer, TraceCommon
TInit == TraceInit0 /\ InitWith(Tr[1].jit)
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ IsCall("add") /\ CallAdd(E.t, E.k, E.to, E.per, E.tok, E.thr, E.now)
  \/ IsRet("add") /\ RetAdd(E.t, E.now)
  \/ IsCall("reset") /\ CallReset(E.t, E.k, E.now)
  \/ IsRet("reset") /\ RetReset(E.t, E.now)
  \/ Is("begin") /\ Begin(E.t, E.k, E.now)
  \/ Is("end") /\ End(E.t, E.k, E.now)
  \/ Is("throw") /\ Throw(E.t, E.k, E.now)
  \/ Is("handler") /\ Handler(E.t, E.k, E.now)
  \/ IsCall("close") /\ CallClose(E.t, E.now)
  \/ IsRet("close") /\ RetClose(E.t, E.now)
  \/ Is("idle") /\ Idle(E.now)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

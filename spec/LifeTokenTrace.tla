--------------------------- MODULE LifeTokenTrace ---------------------------
EXTENDS LifeToken, TraceCommon
TInit == TraceInit0 /\ Init0
TNext ==
  \/ IsCall("exec") /\ CallExec(E.t, E.k, E.g)
  \/ IsRet("exec") /\ RetExec(E.t, E.v = 1, E.r)
  \/ Is("begin") /\ (IF Stk(E.t) = <<>> THEN ABegin(E.t, E.k) ELSE Begin(E.t, E.k))
  \/ Is("end") /\ End(E.t, E.k, E.r)
  \/ IsCall("release") /\ CallRelease(E.t, E.g)
  \/ IsRet("release") /\ RetRelease(E.t)
  \/ IsCall("async") /\ CallAsync(E.t, E.k, E.g)
  \/ IsRet("async") /\ RetAsync(E.t, E.k)
  \/ Is("fut") /\ Fut(E.k, E.r)
  \/ Silent /\ \E t \in DOMAIN stk : Refuse(t) \/ Kill(t)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

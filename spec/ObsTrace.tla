----------------------------- MODULE ObsTrace ------------------------------
EXTENDS Obs, TraceCommon
TInit == TraceInit0 /\ Init0
TNext ==
  \/ Is("cfg") /\ Kind(E.b, E.ord)
  \/ More /\ E.e = "call" /\ l' = l + 1 /\ UNCHANGED tid /\ Call(E.t, E.op, E.k, E.v, E.ls, E.x)
  \/ More /\ E.e = "ret" /\ l' = l + 1 /\ UNCHANGED tid /\ Ret(E.t, E.op, E.r, E.ls)
  \/ Is("note") /\ Note(E.t, E.x, E.o, E.k, E.v)
  \/ Silent /\ \E t \in Threads : Do(t) \/ Fin(t)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

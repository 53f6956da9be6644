------------------------------ MODULE ObvTrace ------------------------------
EXTENDS Obv, TraceCommon
TInit == TraceInit0 /\ Init0
TNext ==
  \/ Is("cfg") /\ Kind(E.b, E.q, E.pop, E.def, E.v)
  \/ More /\ E.e = "call" /\ l' = l + 1 /\ UNCHANGED tid /\ Call(E.t, E.op, E.k, E.v, E.h, E.ls)
  \/ More /\ E.e = "ret" /\ l' = l + 1 /\ UNCHANGED tid /\ Ret(E.t, E.op, E.r)
  \/ Is("note") /\ Note(E.t, E.h, E.v)
  \/ Is("inner") /\ Inner(E.t, E.op, E.k, E.r)
  \/ Silent /\ \E t \in Threads : Enter(t) \/ Leave(t) \/ Read(t) \/ Disc(t)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

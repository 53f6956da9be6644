---------------------------- MODULE TokensTrace ----------------------------
EXTENDS Tokens, TraceCommon
TSlots == 0..35
TInit == TraceInit0 /\ Init0
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ More /\ E.e = "call" /\ l' = l + 1 /\ UNCHANGED tid /\ Call(E.t, E.op, E.i, E.j, E.k, E.o, E.ls)
  \/ More /\ E.e = "ret" /\ l' = l + 1 /\ UNCHANGED tid /\ Ret(E.t, E.op, E.r)
  \/ Is("begin") /\ Begin(E.t, E.o)
  \/ Is("end") /\ End(E.t, E.o)
  \/ Silent /\ \E t \in Threads : Do(t) \/ Rel(t) \/ Gc(t)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

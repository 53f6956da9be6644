---------------------------- MODULE SharedPtrTrace ----------------------------
EXTENDS SharedPtr, TraceCommon
TSlots == 0..47
TInit == TraceInit0 /\ Init0
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ More /\ E.e = "call" /\ l' = l + 1 /\ UNCHANGED tid /\ Call(E.t, E.op, E.i, E.j, E.o, E.k)
  \/ More /\ E.e = "ret" /\ l' = l + 1 /\ UNCHANGED tid /\ Ret(E.t, E.op, E.r)
  \/ Is("deleter") /\ Deleter(E.t, E.o)
  \/ Is("destroy") /\ Destroy(E.t, E.o)
  \/ Is("dlock") /\ DLock(E.t, E.o, E.r)
  \/ Silent /\ \E p \in pend : Do(p) \/ Rel(p)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

----------------------------- MODULE TxnTrace ------------------------------
EXTENDS Txn, TraceCommon
TInit == TraceInit0 /\ Init0
TNext ==
  \/ Is("cfg") /\ Kind(E.b, E.ord)
  \/ More /\ E.e = "call" /\ l' = l + 1 /\ UNCHANGED tid /\ Call(E.t, E.op, E.k, E.v, E.ls, E.x)
  \/ More /\ E.e = "ret" /\ l' = l + 1 /\ UNCHANGED tid /\ Ret(E.t, E.op, E.r, E.ls)
  \/ Is("note") /\ Note(E.t, E.x, E.ls)
  \/ Is("top") /\ TOp(E.t, E.op, E.k, E.v, E.ls, E.r)
  \/ Is("tdump") /\ TDump(E.t, E.ls)
  \/ Is("ten") /\ TEn(E.t, E.op, E.k, E.s)
  \/ Is("tdirty") /\ TDirty(E.t, E.r)
  \/ Is("tdiff") /\ TDiff(E.t, E.s)
  \/ Is("denum") /\ DEnum(E.s, E.ls)
  \/ Is("again") /\ E.ls = E.now /\ UNCHANGED vars
  \/ Is("trevert") /\ TRevert(E.t)
  \/ Is("tapply") /\ TApply(E.t, E.op, E.k, E.v, E.r)
  \/ Is("step") /\ Step(E.s, E.op, E.r)
  \/ Silent /\ \E t \in Threads : Do(t) \/ Fin(t)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

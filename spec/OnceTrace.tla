----------------------------- MODULE OnceTrace -----------------------------
EXTENDS Once, TraceCommon
TInit == TraceInit0 /\ Init0
TNext ==
  \/ Is("cfg") /\ Kind(E.b)
  \/ More /\ E.e = "call" /\ l' = l + 1 /\ UNCHANGED tid /\ Call(E.t, E.op, E.a, E.at)
  \/ More /\ E.e = "ret" /\ l' = l + 1 /\ UNCHANGED tid /\ Ret(E.t, E.op, E.r, E.at)
  \/ Is("cb") /\ Cb(E.t)
  \/ Is("ce") /\ Ce(E.t, E.n, E.ok)
  \/ Is("db") /\ Db(E.t, E.n)
  \/ Is("new") /\ New(E.t, E.to)
  \/ Is("fb") /\ Fb(E.t, E.i, E.at)
  \/ Is("fe") /\ Fe(E.t, E.i)
  \/ Silent /\ \E t \in Threads : Do(t)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

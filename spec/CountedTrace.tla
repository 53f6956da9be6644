----------------------------- MODULE CountedTrace -----------------------------
EXTENDS Counted, TraceCommon
TInit == TraceInit0 /\ Init0
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ Is("add") /\ Add(E.k, E.f, E.c, E.r, E.v)
  \/ Is("rel") /\ Release(E.k, E.f, E.c, E.r, E.v)
  \/ Is("cnt") /\ Count(E.k, E.r)
  \/ Is("ls") /\ List(E.s)
  \/ Is("clr") /\ Clear(E.s)
  \/ Is("begin") /\ Begin
  \/ Is("exec") /\ Exec(E.i, E.f, E.c, E.r)
  \/ Is("com") /\ Commit(E.r)
  \/ Is("roll") /\ Rollback(E.u, E.f, E.r)
  \/ Is("die") /\ Destroy(E.u, E.f)
  \/ Is("prog") /\ Progress(E.lv, E.c, E.tt, E.p)
  \/ Is("part") /\ MakePart(E.i, E.s, E.n, E.ok)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

----------------------------- MODULE SeqsTrace -----------------------------
EXTENDS Seqs, TraceCommon
TInit == TraceInit0 /\ Init0
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ Is("push") /\ Push(E.s, E.ra)
  \/ Is("nest") /\ FlattenN(E.ss)
  \/ Is("flt") /\ Filter(E.m, E.r)
  \/ Is("trf") /\ Transform(E.a)
  \/ Is("same") /\ Same(IF E.ra = 1 THEN Ra ELSE 0)
  \/ Is("rev") /\ Reverse
  \/ Is("drop") /\ DropA(E.n)
  \/ Is("take") /\ TakeA(E.n)
  \/ Is("cyc") /\ CycleTake(E.n)
  \/ Is("split") /\ Split(E.n)
  \/ Is("orelse") /\ OrElse(E.v)
  \/ Is("cat") /\ Concat
  \/ Is("zip") /\ Zip
  \/ Is("diff") /\ DiffA
  \/ Is("walk") /\ Walk(E.i, E.w)
  \/ Is("move") /\ Move(E.i, E.d, E.r)
  \/ Is("look") /\ Look(E.i, E.ok, E.v, E.w)
  \/ Is("eq") /\ Equal(E.r)
  \/ Is("dim") /\ Measure(E.i, E.p, E.z, E.d)
  \/ Is("ask") /\ Ask(E.q, E.i, E.a, E.b, E.r)
  \/ Is("ls") /\ List(E.i, E.s)
  \/ Is("back") /\ Back(E.s)
  \/ Is("seq") /\ SameSeq(E.s, E.r)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

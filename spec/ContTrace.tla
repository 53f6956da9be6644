----------------------------- MODULE ContTrace -----------------------------
EXTENDS Cont, TraceCommon
TInit == TraceInit0 /\ Init0
TNext ==
  \/ Is("cfg") /\ Kind(E.k)
  \/ Is("op") /\ Op(E.c, E.op, E.k, E.v, E.h, E.h2, E.ls, E.r, E.p, E.x, E.now)
  \/ Is("new") /\ New(E.c, E.d, E.ls, E.now)
  \/ Is("copy") /\ (IF E.x = 1 THEN CopyThrew(E.c, E.now) ELSE Copy(E.c, E.j, E.now))
  \/ Is("move") /\ Move(E.c, E.j, E.now)
  \/ Is("swap") /\ Swap(E.now)
  \/ Is("dump") /\ Dump(E.c, E.rev, E.ls)
  \/ Is("eq") /\ Eq(E.r)
  \/ Is("lt") /\ Lt(E.r)
  \/ Is("link") /\ Link(E.c, E.k)
  \/ Is("unlink") /\ Unlink(E.k)
  \/ Is("end") /\ E.n = 0 /\ UNCHANGED vars
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

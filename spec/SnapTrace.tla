----------------------------- MODULE SnapTrace -----------------------------
EXTENDS Snap, TraceCommon
TInit == TraceInit0 /\ Init0
TNext ==
  \/ Is("cfg") /\ Kind(E.b, E.ord)
  \/ Is("op") /\ Op(E.c, E.op, E.k, E.v, E.ls, E.r)
  \/ Is("dump") /\ Dump(E.c, E.ls)
  \/ Is("en") /\ En(E.c, E.op, E.k, E.s)
  \/ Is("rv") /\ RvOf(E.c, E.s)
  \/ Is("enrv") /\ EnRv(E.c, E.s)
  \/ Is("step") /\ Step(E.s, E.op, E.r)
  \/ Is("copy") /\ Copy(E.c, E.s)
  \/ Is("from") /\ FromEn(E.c, E.s)
  \/ Is("fromrv") /\ FromRv(E.c, E.s)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

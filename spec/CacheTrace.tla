----------------------------- MODULE CacheTrace -----------------------------
EXTENDS Cache, TraceCommon
TInit == TraceInit0 /\ Init0
TNext ==
  \/ Is("cfg") /\ Kind(E.b, E.sm, E.cap)
  \/ More /\ E.e = "call" /\ l' = l + 1 /\ UNCHANGED tid /\ Call(E.op, E.k, E.v)
  \/ More /\ E.e = "ret" /\ l' = l + 1 /\ UNCHANGED tid /\ Ret(E.op, E.r)
  \/ Is("evict") /\ Evict(E.k, E.v)
  \/ Is("inner") /\ Inner(E.k, E.r)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

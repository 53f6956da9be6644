---------------------------- MODULE StreamTrace ----------------------------
EXTENDS Stream, TraceCommon
TInit == TraceInit0 /\ data = <<>> /\ pos = 0 /\ kd = [b |-> "", k |-> 0, lo |-> 0, hi |-> -1, buf |-> "", al |-> 1]
TNext ==
  \/ Is("cfg") /\ Make([b |-> E.b, k |-> E.k, lo |-> E.lo, hi |-> E.hi, buf |-> E.buf, al |-> E.al], E.d)
  \/ Is("read") /\ Read(E.n, E.r, E.d)
  \/ Is("write") /\ Write(E.d, E.r)
  \/ Is("seek") /\ Seek(E.o, E.m, E.ok)
  \/ Is("tell") /\ Tell(E.r)
  \/ Is("line") /\ RdLine(E.f, E.d)
  \/ Is("all") /\ All(E.d)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

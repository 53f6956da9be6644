--------------------------- MODULE AsyncStreamTrace ---------------------------
EXTENDS AsyncStream, TraceCommon
TInit == TraceInit0 /\ InitWith([max |-> Tr[1].max, nb |-> Tr[1].nb, sy |-> Tr[1].sy, pos |-> Tr[1].pos, len |-> Tr[1].len])
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ IsCall("write") /\ WriteCall(E.d)
  \/ IsRet("write") /\ WriteRet(E.r)
  \/ Silent /\ cw.st = "called" /\ \E r \in 0..Len(cw.d) : WriteDo(r)
  \/ Is("seek") /\ SeekTo(CASE E.m = 0 -> E.off [] E.m = 1 -> pos + E.off [] E.m = 2 -> len + E.off, E.r)
  \/ Is("tell") /\ Tell(E.r)
  \/ IsCall("sync") /\ SyncCall(E.t)
  \/ IsRet("sync") /\ SyncRet(E.t, E.r)
  \/ Is("uwrite") /\ UWrite(E.off, E.d, E.r)
  \/ Is("usync") /\ USync
  \/ Is("ufail") /\ UFail
  \/ Is("reconf") /\ (E.r = 0 \/ broken = 1) /\ UNCHANGED vars
  \/ Is("destroyed") /\ Destroyed
  \/ Is("idle") /\ Idle
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

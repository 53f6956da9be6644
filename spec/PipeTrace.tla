------------------------------ MODULE PipeTrace ------------------------------
EXTENDS Pipe, TraceCommon
TInit == TraceInit0 /\ InitWith(Tr[1].b, Tr[1].sync)
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ IsCall("write") /\ Call(E.t, "write", E.d, 0, E.c, E.dl)
  \/ IsCall("read") /\ Call(E.t, "read", <<>>, E.n, E.c, E.dl)
  \/ IsCall("line") /\ Call(E.t, "line", <<>>, 1, E.c, E.dl)
  \/ IsCall("peek") /\ Call(E.t, "peek", <<>>, 0, 0, -1)
  \/ IsRet("write") /\ IF E.r = "ok" THEN RetWrite(E.t, E.n) ELSE RetGaveUp(E.t, "write", E.r, E.now)
  \/ IsRet("read") /\ IF E.r = "ok" THEN RetRead(E.t, "read", E.d) ELSE RetGaveUp(E.t, "read", E.r, E.now)
  \/ IsRet("line") /\ IF E.r = "ok" THEN RetRead(E.t, "line", E.d) ELSE IF E.r = "bad" THEN RetBad(E.t) ELSE RetGaveUp(E.t, "line", E.r, E.now)
  \/ IsRet("peek") /\ RetPeek(E.t, E.r)
  \/ IsCall("cancel") /\ Cancel(E.c)
  \/ IsRet("cancel") /\ UNCHANGED vars
  \/ Is("idle") /\ Idle(E.now)
  \/ Silent /\ \E p \in pend : Place(p) \/ AbortW(p) \/ Take(p) \/ Peek(p)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

--------------------------- MODULE DataBufferTrace ---------------------------
EXTENDS DataBuffer, TraceCommon
TInit == TraceInit0 /\ InitWith([n |-> Tr[1].n, ip |-> Tr[1].ip, op |-> Tr[1].op, req |-> Tr[1].req, disc |-> Tr[1].disc, spur |-> Tr[1].spur])
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ IsCall("cancel") /\ Cancel(E.x)
  \/ IsRet("cancel") /\ UNCHANGED vars
  \/ More /\ E.e = "call" /\ E.op # "cancel" /\ l' = l + 1 /\ UNCHANGED tid /\ Call(E.t, E.op, IF E.op = "write" THEN E.d ELSE <<>>, IF E.op = "waitdata" THEN E.n ELSE 0)
  \/ IsRet("write") /\ RetWrite(E.t, E.r)
  \/ More /\ E.e = "ret" /\ E.op \notin {"cancel", "write"} /\ l' = l + 1 /\ UNCHANGED tid /\ RetRead(E.t, E.op, E.r)
  \/ Is("overflow") /\ Overflow(E.t, E.n)
  \/ Is("data") /\ Data(E.t, E.d)
  \/ Is("consumed") /\ Consumed(E.t, E.r)
  \/ Is("eod") /\ Eod(E.t)
  \/ Is("idle") /\ Idle
  \/ Silent /\ \E p \in pend : Act(p)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

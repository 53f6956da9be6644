-------------------------- MODULE PacketBufferTrace --------------------------
EXTENDS PacketBuffer, TraceCommon
TInit == TraceInit0 /\ InitWith([n |-> Tr[1].n, disc |-> Tr[1].disc, spur |-> Tr[1].spur])
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ IsCall("cancel") /\ Cancel(E.x)
  \/ IsRet("cancel") /\ UNCHANGED vars
  \/ IsCall("write") /\ Call(E.t, "write", E.d, E.md)
  \/ More /\ E.e = "call" /\ E.op \notin {"cancel", "write"} /\ l' = l + 1 /\ UNCHANGED tid /\ Call(E.t, E.op, <<>>, 0)
  \/ More /\ E.e = "ret" /\ E.op # "cancel" /\ l' = l + 1 /\ UNCHANGED tid /\ Ret(E.t, E.op, E.r)
  \/ Is("data") /\ Data(E.t, E.d, E.md)
  \/ Is("consumed") /\ Consumed(E.t, E.r)
  \/ Is("eod") /\ Eod(E.t)
  \/ Is("idle") /\ Idle
  \/ Silent /\ \E p \in pend : Act(p)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

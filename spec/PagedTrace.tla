---------------------------- MODULE PagedTrace ----------------------------
EXTENDS Paged, TraceCommon
TInit == TraceInit0 /\ InitWith([ps |-> Tr[1].ps, ch |-> Tr[1].ch, spur |-> Tr[1].spur])
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ IsCall("cancel") /\ Cancel(E.x)
  \/ IsRet("cancel") /\ Cancelled(E.x)
  \/ More /\ E.e = "call" /\ E.op # "cancel" /\ l' = l + 1 /\ UNCHANGED tid /\ Call(E.t, E.op, IF E.op = "push" THEN E.d ELSE <<>>, IF E.op \in {"pop", "seek"} THEN E.n ELSE 0)
  \/ More /\ E.e = "ret" /\ E.op # "cancel" /\ l' = l + 1 /\ UNCHANGED tid /\ Ret(E.t, E.op, E.r)
  \/ Is("data") /\ Data(E.t, E.d)
  \/ Is("consumed") /\ Consumed(E.t, E.r)
  \/ Is("fail") /\ Fail(E.t)
  \/ Is("idle") /\ Idle
  \/ Silent /\ \E p \in pend : Act(p)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

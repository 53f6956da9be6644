------------------------ MODULE CircularBufferTrace ------------------------
EXTENDS CircularBuffer, TraceCommon
TInit == TraceInit0 /\ InitWith(Tr[1].kind, Tr[1].n)
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ Is("write") /\ BWrite(E.size, E.end)
  \/ Is("push") /\ BPush(E.d)
  \/ Is("read") /\ BRead(E.size, E.end)
  \/ Is("bytes") /\ Bytes(E.d)
  \/ Is("pop") /\ BPop(E.n)
  \/ Is("bclear") /\ BClear
  \/ Is("sizes") /\ BSizes(E.data, E.free)
  \/ More /\ E.e = "call" /\ l' = l + 1 /\ UNCHANGED tid /\ Call(E.t, E.op, E.d, E.n)
  \/ More /\ E.e = "ret" /\ l' = l + 1 /\ UNCHANGED tid /\ Ret(E.t, E.op, E.r)
  \/ Is("all") /\ All(E.d)
  \/ Silent /\ \E t \in DOMAIN pend : Act(t)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

-------------------------- MODULE CircularBufferMC --------------------------
(* Small constants: bytes are numbered in writing order, so the queue contents must stay increasing (order, no duplication). *)
EXTENDS CircularBuffer, TLC
CONSTANTS Kinds, Cap, MaxBytes, Threads
VARIABLE last
Init == last = 0 /\ \E k \in Kinds : InitWith(k, Cap)
Data(n) == [i \in 1..n |-> last + i]
Next ==
  \/ BWrite(WriteSize, IF WOff + WriteSize = N THEN 1 ELSE 0) /\ UNCHANGED last
  \/ \E n \in 0..Cap : last + n <= MaxBytes /\ BPush(Data(n)) /\ last' = last + n
  \/ BRead(ReadSize, IF roff + ReadSize = N THEN 1 ELSE 0) /\ UNCHANGED last
  \/ \E n \in 0..Cap : BPop(n) /\ UNCHANGED last
  \/ BClear /\ UNCHANGED last
  \/ kind # "bi" /\ \E t \in Threads :
     \/ \E n \in 0..(Cap + 1) : last + n <= MaxBytes /\ Call(t, "push", Data(n), 0) /\ last' = last + n
     \/ \E n \in 0..Cap : Call(t, "pop", <<>>, n) /\ (\A x \in DOMAIN pend : pend[x].op \notin {"pop", "release"}) /\ rwin = -1 /\ UNCHANGED last
     \/ Call(t, "release", <<>>, 0) /\ rwin >= 0 /\ (\A x \in DOMAIN pend : pend[x].op \notin {"pop", "release"}) /\ UNCHANGED last
     \/ Call(t, "clear", <<>>, 0) /\ UNCHANGED last
     \/ t \in DOMAIN pend /\ Act(t) /\ UNCHANGED last
     \/ t \in DOMAIN pend /\ Ret(t, pend[t].op, pend[t].r) /\ UNCHANGED last
Spec == Init /\ [][Next]_<<vars, last>>
\* two pushes in progress may take effect in either order; each keeps its bytes together and in order
InvOrder == kind = "bi" => \A i \in 1..Len(q) - 1 : q[i] < q[i + 1]
InvOnce == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
Front == IF rwin > 0 /\ rwin <= Len(q) THEN SubSeq(q, 1, rwin) ELSE <<>>
\* what a reader holds is not overwritten or dropped while it holds it
HeldStable == [][(rwin > 0 /\ rwin' = rwin) => Len(q') >= rwin /\ SubSeq(q', 1, rwin) = Front]_<<vars, last>>
=============================================================================

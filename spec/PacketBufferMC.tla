--------------------------- MODULE PacketBufferMC ---------------------------
EXTENDS PacketBuffer, TLC
CONSTANTS Sizes, MaxPk, Writers, Caps
VARIABLE nx
Init == nx = 0 /\ \E n \in Caps, dc \in {0, 1} : InitWith([n |-> n, disc |-> dc, spur |-> 0])
Next ==
  \/ \E t \in Writers, n \in Sizes : nx < MaxPk /\ Call(t, "write", [i \in 1..n |-> nx], nx) /\ nx' = nx + 1
  \/ UNCHANGED nx /\ \/ Call(9, "read", <<>>, 0) \/ Call(8, "clear", <<>>, 0) \/ Call(8, "seteod", <<>>, 0) \/ Cancel(1)
                     \/ \E p \in pend : \/ Act(p) \/ Eod(p.t) \/ Ret(p.t, p.op, p.r) \/ (p.st = "data" /\ \E r \in {0, 1} : Consumed(p.t, r))
Spec == Init /\ [][Next]_<<vars, nx>>
InvOrder == \A i, j \in 1..Len(gone) : i < j => (IF Cardinality(Writers) = 1 THEN gone[i] < gone[j] ELSE gone[i] # gone[j])
=============================================================================

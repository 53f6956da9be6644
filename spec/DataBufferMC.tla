---------------------------- MODULE DataBufferMC ----------------------------
EXTENDS DataBuffer, TLC
CONSTANTS Pars, MaxBytes, Writers
VARIABLE nx
Init == nx = 0 /\ \E p \in Pars : InitWith(p)
ParsQ == {[n |-> 2, ip |-> 1, op |-> 1, req |-> 0, disc |-> 0, spur |-> 0], [n |-> 4, ip |-> 1, op |-> 2, req |-> 1, disc |-> 1, spur |-> 0], [n |-> 4, ip |-> 2, op |-> 1, req |-> 0, disc |-> 0, spur |-> 0]}
D(n) == [i \in 1..n |-> nx + i]
Next ==
  \/ \E t \in Writers, n \in {1, 2} : nx + n <= MaxBytes /\ Call(t, "write", D(n), 0) /\ nx' = nx + n
  \/ UNCHANGED nx /\ \/ Call(9, "read", <<>>, 0) \/ Call(8, "clear", <<>>, 0) \/ Call(8, "seteod", <<>>, 0) \/ (par.disc = 0 /\ Call(9, "waitdata", <<>>, par.op)) \/ Cancel(1) \/ Cancel(9)
                     \/ \E p \in pend : \/ Act(p) \/ Overflow(p.t, Len(p.d)) \/ Eod(p.t) \/ (p.op = "write" /\ RetWrite(p.t, p.r)) \/ (p.op # "write" /\ RetRead(p.t, p.op, p.r))
                                        \/ (p.st = "data" /\ \E r \in {-1, 0, 1, p.n} : Consumed(p.t, r))
Spec == Init /\ [][Next]_<<vars, nx>>
InvOrder == \A i \in 1..Len(q) : \A j \in 1..Len(q) : (i < j /\ Cardinality(Writers) = 1) => q[i] < q[j]
InvOnce == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
=============================================================================

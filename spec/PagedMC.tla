----------------------------- MODULE PagedMC -----------------------------
EXTENDS Paged, TLC
CONSTANTS Pars, MaxBytes, Writers
VARIABLE nx
Init == nx = 0 /\ \E p \in Pars : InitWith(p)
ParsQ == {[ps |-> 2, ch |-> 1, spur |-> 0], [ps |-> 2, ch |-> 2, spur |-> 0]}
ParsB == {[ps |-> 1, ch |-> 1, spur |-> 0], [ps |-> 2, ch |-> 1, spur |-> 0], [ps |-> 2, ch |-> 2, spur |-> 0], [ps |-> 4, ch |-> 2, spur |-> 0], [ps |-> 3, ch |-> 1, spur |-> 1]}
D(n) == [i \in 1..n |-> nx + i]
Next ==
  \/ \E t \in Writers, n \in {1, 2, 3} : nx + n <= MaxBytes /\ Call(t, "push", D(n), 0) /\ nx' = nx + n
  \/ UNCHANGED nx /\ \/ Call(9, "read", <<>>, 0) \/ \E n \in {1, 2} : (Call(8, "pop", <<>>, n) \/ Call(8, "seek", <<>>, n - 1))
                     \/ \E t \in {1, 9} : (t \notin canc /\ Cancel(t)) \/ (t \notin cand /\ Cancelled(t))
                     \/ \E p \in pend : \/ Act(p) \/ Fail(p.t) \/ Ret(p.t, p.op, p.r)
                                        \/ (p.st = "data" /\ \E r \in -1..(Min2(Len(All), (p.n \div par.ps + 1) * par.ps) - p.n) : Consumed(p.t, r))
Spec == Init /\ [][Next]_<<vars, nx>>
\* what is stored is what was pushed, in order, each byte once (one writer: increasing)
InvOrder == Cardinality(Writers) = 1 => \A i, j \in 1..N : i < j => bytes[i] < bytes[j]
InvOnce == \A i, j \in 1..N : i # j => bytes[i] # bytes[j]
=============================================================================

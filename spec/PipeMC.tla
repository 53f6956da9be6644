------------------------------- MODULE PipeMC -------------------------------
EXTENDS Pipe, TLC
CONSTANTS Writers, Caps, MaxBytes
VARIABLE nx
Init == nx = 0 /\ \E b \in Caps, s \in {0, 1} : InitWith(b, s)
Data(n) == [i \in 1..n |-> 20 + nx + i]
Next ==
  \/ \E t \in Writers, n \in 0..2, cc \in {0, 1} : LET c == cc * t IN nx + n <= MaxBytes /\ (sync = 0 => t = 1) /\ Call(t, "write", Data(n), 0, c, -1) /\ nx' = nx + IF n = 0 THEN 1 ELSE n
  \/ \E n \in {1, 2} : Call(9, "read", <<>>, n, 0, -1) /\ UNCHANGED nx
  \/ \E c \in Writers : Cancel(c) /\ UNCHANGED nx
  \/ UNCHANGED nx /\ \E p \in pend : Place(p) \/ AbortW(p) \/ Take(p) \/ RetWrite(p.t, Len(p.d)) \/ RetRead(p.t, "read", p.acc) \/ (p.op = "write" /\ RetGaveUp(p.t, p.op, "cancelled", 0))
Spec == Init /\ [][Next]_<<vars, nx>>
\* writes do not mix: the bytes of one block are read next to each other
InvTogether == \A i \in 1..Len(okw) : \A a, b \in 1..Len(got) : (got[a] \in Els(okw[i]) /\ got[b] \in Els(okw[i])) => got[b] - got[a] = b - a
=============================================================================

------------------------------ MODULE StreamMC ------------------------------
EXTENDS Stream, TLC
CONSTANTS MaxLen, Bytes
K(b, k, lo, hi, buf, al) == [b |-> b, k |-> k, lo |-> lo, hi |-> hi, buf |-> buf, al |-> al]
Kinds == {K("arr", 0, 0, -1, "", 1), K("arr", 0, 1, -1, "", 1), K("arr", 0, 1, 3, "", 1), K("fix", 0, 0, -1, "", 1), K("fix", 0, 1, 3, "top", 2), K("const", 0, 0, -1, "", 1), K("chunk", 0, 0, -1, "", 1), K("chunk", 0, 1, -1, "", 1), K("stub", 2, 0, -1, "", 1),
          K("arr", 0, 0, -1, "top", 2), K("arr", 0, 1, -1, "top", 2), K("arr", 0, 1, -1, "low", 2), K("stub", 1, 1, 3, "low", 1), K("stub", 2, 1, 3, "top", 2)}
Seqs(n) == UNION {[1..m -> Bytes] : m \in 0..n}
Init == kd \in Kinds /\ data \in Seqs(MaxLen) /\ kd.lo <= Len(data) /\ pos = 0
Next ==
  \/ \E n \in 0..MaxLen : Read(n, ReadN(n), Got(ReadN(n)))
  \/ \E bs \in Seqs(2) : Write(bs, WriteN(Len(bs)))
  \/ \E o \in (0 - 2)..(MaxLen + 1), m \in {"b", "c", "e"} : Seek(o, m, IF SeekRes(o, m) = Exc THEN 0 ELSE 1)
  \/ RdLine(Line.f, Line.s)
Spec == Init /\ [][Next]_vars
Bound == Len(data) <= MaxLen
\* the position stays in the window; only with an aligned buffer it can be past the end of the data
Within == pos >= 0 /\ (kd.hi >= 0 /\ kd.al = 1 => pos <= kd.hi - kd.lo) /\ (kd.al = 1 => pos + kd.lo <= Len(data))
\* what was written is what is read there
WhatWasWritten == [][\A bs \in Seqs(2) : Write(bs, WriteN(Len(bs))) /\ WriteN(Len(bs)) >= 0 => SubSeq(data', kd.lo + pos + 1, kd.lo + pos') = SubSeq(bs, 1, WriteN(Len(bs)))]_vars
\* nothing else changes
Frame == [][\A i \in 1..Len(data) : i <= Len(data') /\ (i <= kd.lo + pos \/ i > kd.lo + pos' \/ pos' < pos => data'[i] = data[i])]_vars
=============================================================================

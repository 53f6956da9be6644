------------------------------- MODULE Stream -------------------------------
(* Byte streams: memory (growing, of fixed size, read only), chunked, behind a buffer, an offset, an offset and a size, and an underlying stream that moves     *)
(* at most a few bytes at a time: a sequence of bytes and a position.                                                                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES data,  \* bytes of the underlying stream
          pos,   \* position seen by the user
          kd     \* [b: arr|fix|const|chunk|stub, k: bytes the stub moves at most, lo: offset, hi: end of the window or -1, buf: "" none, top, low; al: alignment of the buffer]
vars == <<data, pos, kd>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Down(x) == (x \div kd.al) * kd.al
Exc == -1
\* where the seek of the innermost stream ends up for target t (user's coordinates)
SeekOk(t) ==
  /\ t >= 0
  /\ (kd.hi >= 0 => (IF kd.buf = "top" THEN Down(t) ELSE t) + kd.lo <= kd.hi)
  /\ CASE kd.buf = "top" -> Down(t) + kd.lo <= Len(data)
       [] kd.buf = "low" -> Down(t + kd.lo) <= Len(data)
       [] OTHER -> t + kd.lo <= Len(data)
EndPos == (IF kd.hi >= 0 THEN kd.hi ELSE Len(data)) - kd.lo
\* a seek relative to the end is asked of the stream below a buffer on top
ToEnd(t) == SeekOk(t) /\ (kd.buf = "top" => t + kd.lo <= Len(data) /\ (kd.hi >= 0 => t + kd.lo <= kd.hi))
Target(off, mode) == CASE mode = "b" -> off [] mode = "c" -> pos + off [] mode = "e" -> EndPos + off
SeekRes(off, mode) == LET t == Target(off, mode) IN IF kd.b = "chunk" /\ data = <<>> THEN Exc ELSE IF (IF mode = "e" THEN ToEnd(t) ELSE SeekOk(t)) THEN t ELSE Exc
Avail == Max(0, (IF kd.hi >= 0 THEN Min(kd.hi, Len(data)) ELSE Len(data)) - kd.lo - pos)
Limit(n) == IF kd.k > 0 /\ kd.buf = "" THEN Min(n, kd.k) ELSE n
\* number of bytes read
ReadN(n) == IF kd.b = "chunk" /\ pos + kd.lo >= Len(data) THEN Exc ELSE Limit(Min(n, Avail))
Got(n) == IF n <= 0 THEN <<>> ELSE SubSeq(data, kd.lo + pos + 1, kd.lo + pos + n)
\* number of bytes written
WriteN(n) ==
  LET room == IF kd.hi >= 0 THEN kd.hi - kd.lo - pos ELSE n
      m == Min(n, room) IN
  IF kd.hi >= 0 /\ room <= 0 THEN Exc ELSE IF pos + kd.lo > Len(data) THEN Exc
  ELSE CASE kd.b = "const" -> Exc
         [] kd.b = "chunk" -> IF m = 0 THEN Exc ELSE m
         [] kd.b = "fix" -> Min(m, Len(data) - pos - kd.lo)
         [] kd.b = "stub" -> Min(m, kd.k)
         [] OTHER -> m
Put(d, at, bs) == [i \in 1..Max(Len(d), at + Len(bs)) |-> IF i > at /\ i <= at + Len(bs) THEN bs[i - at] ELSE d[i]]
\* a line: 10, 13 10 or 13 ends it; <<>> and found = 0: end of the data
RECURSIVE LineFrom(_, _)
LineFrom(p, acc) ==   \* p: bytes of the window already taken
  IF p >= pos + Avail THEN [s |-> acc, f |-> 1, p |-> p]
  ELSE LET c == data[kd.lo + p + 1] IN
       IF c = 10 THEN [s |-> acc, f |-> 1, p |-> p + 1]
       ELSE IF c = 13 THEN [s |-> acc, f |-> 1, p |-> IF p + 1 < pos + Avail /\ data[kd.lo + p + 2] = 10 THEN p + 2 ELSE p + 1]
       ELSE LineFrom(p + 1, Append(acc, c))
Line == IF Avail = 0 THEN [s |-> <<>>, f |-> 0, p |-> pos] ELSE LineFrom(pos, <<>>)
------------------------------------------------------------------------------
Make(k, d) == kd' = k /\ data' = d /\ pos' = 0
Read(n, r, bs) == r = ReadN(n) /\ bs = Got(r) /\ pos' = pos + Max(r, 0) /\ UNCHANGED <<data, kd>>
Write(bs, r) ==
  /\ r = WriteN(Len(bs)) /\ UNCHANGED kd
  /\ IF r < 0 THEN UNCHANGED <<data, pos>> ELSE data' = Put(data, kd.lo + pos, SubSeq(bs, 1, r)) /\ pos' = pos + r
Seek(off, mode, ok) == LET t == SeekRes(off, mode) IN ok = (IF t = Exc THEN 0 ELSE 1) /\ pos' = (IF t = Exc THEN pos ELSE t) /\ UNCHANGED <<data, kd>>
Tell(r) == r = pos /\ UNCHANGED vars
RdLine(f, s) == LET x == Line IN f = x.f /\ s = x.s /\ pos' = x.p /\ UNCHANGED <<data, kd>>
All(bs) == bs = data /\ UNCHANGED vars
=============================================================================

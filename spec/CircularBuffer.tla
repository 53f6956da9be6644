--------------------------- MODULE CircularBuffer ---------------------------
(* Bounded circular byte buffers as one queue of bytes.  `roff` is the storage offset of the first unread byte: a reader or writer is given *)
(* the part up to the end of the storage.  kind: "bi"  - two-part buffer (BithreadCircularBuffer), reader and writer windows held outside,     *)
(*                                          "mem" - self-locking buffer (MemoryCircularBuffer), "memd" - the same discarding on overflow.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES kind, N, q, roff, rwin, wwin, pend, written, dropped, taken
\* rwin/wwin: size held by the reader/writer (-1 none); pend[t]: operation in progress of thread t
vars == <<kind, N, q, roff, rwin, wwin, pend, written, dropped, taken>>
Min2(a, b) == IF a < b THEN a ELSE b
InitWith(k, n) == kind = k /\ N = n /\ q = <<>> /\ roff = 0 /\ rwin = -1 /\ wwin = -1 /\ pend = <<>> /\ written = 0 /\ dropped = 0 /\ taken = 0
ReadSize == Min2(Len(q), N - roff)
WOff == (roff + Len(q)) % N
WriteSize == Min2(N - Len(q), N - WOff)
Drop(n) == q' = SubSeq(q, n + 1, Len(q)) /\ roff' = (roff + n) % N
\* ---- two-part buffer: every step is serialised by the user, only the data is accessed concurrently
BWrite(size, end) == kind = "bi" /\ size = WriteSize /\ end = (IF WOff + size = N THEN 1 ELSE 0) /\ wwin' = size /\ UNCHANGED <<kind, N, q, roff, rwin, pend, written, dropped, taken>>
BPush(d) == kind = "bi" /\ wwin >= Len(d) /\ q' = q \o d /\ wwin' = -1 /\ written' = written + Len(d) /\ UNCHANGED <<kind, N, roff, rwin, pend, dropped, taken>>
BRead(size, end) == kind = "bi" /\ size = ReadSize /\ end = (IF roff + size = N THEN 1 ELSE 0) /\ rwin' = size /\ UNCHANGED <<kind, N, q, roff, wwin, pend, written, dropped, taken>>
Bytes(d) == rwin >= Len(d) /\ SubSeq(q, 1, Len(d)) = d /\ UNCHANGED vars
BPop(n) == kind = "bi" /\ rwin >= n /\ Drop(n) /\ rwin' = -1 /\ taken' = taken + n /\ UNCHANGED <<kind, N, wwin, pend, written, dropped>>
BClear == kind = "bi" /\ rwin = -1 /\ wwin = -1 /\ q' = <<>> /\ roff' = 0 /\ dropped' = dropped + Len(q) /\ UNCHANGED <<kind, N, rwin, wwin, pend, written, taken>>
BSizes(data, free) == data = Len(q) /\ free = N - Len(q) /\ UNCHANGED vars
\* ---- self-locking buffer: operations of several threads, each taking effect between call and return
Idle0(t) == t \notin DOMAIN pend
Put(t, r) == [x \in DOMAIN pend \cup {t} |-> IF x = t THEN r ELSE pend[x]]
Del(t) == [x \in DOMAIN pend \ {t} |-> pend[x]]
Call(t, op, d, n) == Idle0(t) /\ pend' = Put(t, [op |-> op, d |-> d, n |-> n, done |-> 0, r |-> 0]) /\ UNCHANGED <<kind, N, q, roff, rwin, wwin, written, dropped, taken>>
Done(t, r) == pend' = [pend EXCEPT ![t].done = 1, ![t].r = r]
Locked == IF rwin > 0 THEN rwin ELSE 0
\* push result 1: accepted, 0: full, -1: refused because data is held
Push(t) == LET p == pend[t]  free == N - Len(q) IN
  /\ p.op = "push" /\ p.done = 0
  /\ IF Len(p.d) <= free THEN q' = q \o p.d /\ written' = written + Len(p.d) /\ Done(t, 1) /\ UNCHANGED <<roff, dropped>>
     ELSE IF kind = "mem" THEN Done(t, 0) /\ UNCHANGED <<q, roff, written, dropped>>
     ELSE IF Locked > 0 THEN Done(t, -1) /\ UNCHANGED <<q, roff, written, dropped>>
     ELSE LET keep == Min2(Len(p.d), N)  rel == keep - free IN
          /\ q' = SubSeq(q, rel + 1, Len(q)) \o SubSeq(p.d, Len(p.d) - keep + 1, Len(p.d)) /\ roff' = (roff + rel) % N
          /\ written' = written + keep /\ dropped' = dropped + rel /\ Done(t, 1)
  /\ UNCHANGED <<kind, N, rwin, wwin, taken>>
Pop(t) == LET p == pend[t] IN /\ p.op = "pop" /\ p.done = 0 /\ rwin = -1 /\ rwin' = Min2(p.n, ReadSize) /\ Done(t, Min2(p.n, ReadSize)) /\ UNCHANGED <<kind, N, q, roff, wwin, written, dropped, taken>>
Release(t) == LET p == pend[t] IN /\ p.op = "release" /\ p.done = 0 /\ rwin >= 0 /\ Drop(rwin) /\ taken' = taken + rwin /\ rwin' = -1 /\ Done(t, 0) /\ UNCHANGED <<kind, N, wwin, written, dropped>>
Clear(t) == LET p == pend[t] IN /\ p.op = "clear" /\ p.done = 0 /\ q' = SubSeq(q, 1, Locked) /\ dropped' = dropped + Len(q) - Locked /\ Done(t, 0) /\ UNCHANGED <<kind, N, roff, rwin, wwin, written, taken>>
Query(t) == LET p == pend[t] IN
  /\ p.op \in {"size", "free", "can"} /\ p.done = 0
  /\ Done(t, CASE p.op = "size" -> Len(q) [] p.op = "free" -> N - Len(q) [] p.op = "can" -> IF p.n <= N - Len(q) THEN 1 ELSE 0)
  /\ UNCHANGED <<kind, N, q, roff, rwin, wwin, written, dropped, taken>>
Act(t) == Push(t) \/ Pop(t) \/ Release(t) \/ Clear(t) \/ Query(t)
Ret(t, op, r) == t \in DOMAIN pend /\ pend[t].op = op /\ pend[t].done = 1 /\ pend[t].r = r /\ pend' = Del(t) /\ UNCHANGED <<kind, N, q, roff, rwin, wwin, written, dropped, taken>>
All(d) == d = q /\ UNCHANGED vars \* full contents, nobody else active
\* ---- invariants
InvCapacity == Len(q) <= N /\ roff < N
InvConserved == written = taken + dropped + Len(q)
InvWindows == rwin <= Len(q) /\ (kind = "bi" => wwin <= N - Len(q))
=============================================================================

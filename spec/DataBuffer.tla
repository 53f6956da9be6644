----------------------------- MODULE DataBuffer -----------------------------
(* Shared data buffer: writers (one at a time through a guard) and one reader around a circular buffer of N bytes; input and output packet     *)
(* sizes, required free space, discard on overflow, end of data, exception, clear, waiting for an amount of data.                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES par, q, roff, eod, exc, guard, pend, canc, lost, taken, put
\* par: [n, ip, op, req, disc, spur]; guard: thread allowed to write (0 none); pend: calls in progress
vars == <<par, q, roff, eod, exc, guard, pend, canc, lost, taken, put>>
Min2(a, b) == IF a < b THEN a ELSE b
InitWith(p) == par = p /\ q = <<>> /\ roff = 0 /\ eod = 0 /\ exc = 0 /\ guard = 0 /\ pend = {} /\ canc = {} /\ lost = 0 /\ taken = 0 /\ put = 0
N == par.n
Down(x, a) == (x \div a) * a
ReadSize == Down(Min2(Len(q), N - roff), par.op)
WOff == (roff + Len(q)) % N
Free == N - Len(q)
WriteSize == Down(Min2(Free, N - WOff), par.ip)
Same == UNCHANGED <<par, q, roff, eod, exc, guard, canc, lost, taken, put>>
Call(t, op, d, n) == (~\E p \in pend : p.t = t) /\ pend' = pend \cup {[t |-> t, op |-> op, d |-> d, n |-> n, st |-> "called", wk |-> 0, r |-> 0]} /\ Same
Repl(p, r) == (pend \ {p}) \cup {r}
Ret0(p) == pend' = pend \ {p}
Cancel(t) == canc' = canc \cup {t} /\ UNCHANGED <<par, q, roff, eod, exc, guard, pend, lost, taken, put>>
Wake(S, ops) == {IF p.st = "wait" /\ p.op \in ops THEN [p EXCEPT !.wk = 1] ELSE p : p \in S}
WakeR(S) == Wake(S, {"read", "waitdata"})
WakeW(S) == Wake(S, {"write"})
\* a writer or reader is active from entering the buffer until it leaves it
Writing == \E p \in pend : p.op = "write" /\ p.st \in {"wait", "copy", "over"}
Reading == \E p \in pend : p.op \in {"read", "waitdata"} /\ p.st \in {"wait", "data", "eod", "pop"}
\* ---- writing
Acquire(p) == p \in pend /\ p.op = "write" /\ p.st = "called" /\ guard = 0 /\ guard' = p.t /\ pend' = Repl(p, [p EXCEPT !.st = "in"]) /\ UNCHANGED <<par, q, roff, eod, exc, canc, lost, taken, put>>
NoGuard(p) == p \in pend /\ p.op = "write" /\ p.st = "called" /\ p.t \in canc /\ pend' = Repl(p, [p EXCEPT !.st = "done", !.r = 0]) /\ Same
Finish(p, r) == pend' = Repl(p, [p EXCEPT !.st = "done", !.r = r]) /\ guard' = 0
Enter(p) == LET k == Min2(Len(p.d), WriteSize) IN
  /\ p \in pend /\ p.op = "write" /\ p.st = "in"
  /\ IF Len(p.d) % par.ip # 0 THEN Finish(p, Len(p.d)) /\ lost' = lost /\ UNCHANGED <<par, q, roff, eod, exc, canc, taken, put>>
     ELSE /\ lost' = lost
          /\ IF eod = 1 \/ exc = 1 THEN Finish(p, -1) /\ UNCHANGED <<par, q, roff, eod, exc, canc, taken, put>>
             ELSE IF WriteSize = 0 \/ Free < par.req
             THEN pend' = Repl(p, IF par.disc = 1 THEN [p EXCEPT !.st = "over"] ELSE [p EXCEPT !.st = "wait"]) /\ UNCHANGED <<par, q, roff, eod, exc, guard, canc, taken, put>>
             ELSE pend' = Repl(p, [p EXCEPT !.st = "copy", !.r = k]) /\ UNCHANGED <<par, q, roff, eod, exc, guard, canc, taken, put>>
Push(p) == /\ p \in pend /\ p.st = "copy" /\ q' = q \o SubSeq(p.d, 1, p.r) /\ put' = put + p.r
           /\ pend' = WakeR(Repl(p, [p EXCEPT !.st = "done"])) /\ guard' = 0 /\ UNCHANGED <<par, roff, eod, exc, canc, lost, taken>>
Overflow(t, n) == \E p \in pend : p.t = t /\ p.st = "over" /\ n = Len(p.d) /\ Finish(p, n) /\ UNCHANGED <<par, q, roff, eod, exc, canc, lost, taken, put>>
Wakeable(p) == p.wk = 1 \/ p.t \in canc \/ par.spur = 1
WriteWoken(p) == p \in pend /\ p.op = "write" /\ p.st = "wait" /\ Wakeable(p) /\ Finish(p, 0) /\ UNCHANGED <<par, q, roff, eod, exc, canc, lost, taken, put>>
RetWrite(t, r) == \E p \in pend : p.t = t /\ p.op = "write" /\ p.st = "done" /\ p.r = r /\ Ret0(p) /\ Same
\* ---- reading: results -1: reading already in progress, -2: the stored exception, 0: returned
Begin(p) == /\ p \in pend /\ p.op \in {"read", "waitdata"} /\ p.st = "called"
            /\ pend' = Repl(p, IF p.op = "waitdata" /\ (p.n <= 0 \/ p.n % par.op # 0 \/ p.n >= N) THEN [p EXCEPT !.st = "done", !.r = -3]
                               ELSE IF Reading THEN [p EXCEPT !.st = "done", !.r = -1]
                               ELSE IF p.op = "waitdata" THEN [p EXCEPT !.st = IF Len(q) >= p.n \/ eod = 1 \/ exc = 1 THEN "done" ELSE "wait"]
                               ELSE IF ReadSize > 0 THEN [p EXCEPT !.st = "data", !.n = ReadSize]
                               ELSE IF exc = 1 THEN [p EXCEPT !.st = "done", !.r = -2]
                               ELSE IF eod = 1 THEN [p EXCEPT !.st = "eod"] ELSE [p EXCEPT !.st = "wait"])
            /\ Same
ReadWoken(p) == /\ p \in pend /\ p.st = "wait" /\ Wakeable(p)
                /\ IF p.op = "read" THEN pend' = Repl(p, [p EXCEPT !.st = "done"])
                   ELSE p.op = "waitdata" /\ pend' = Repl(p, IF Len(q) >= p.n \/ eod = 1 \/ exc = 1 \/ p.t \in canc THEN [p EXCEPT !.st = "done"] ELSE [p EXCEPT !.wk = 0])
                /\ Same
\* the consumer: gets all complete packets up to the end of the storage, unchanged while it works; accepts r bytes (not whole packets: all); -1: it throws
Data(t, d) == \E p \in pend : p.t = t /\ p.op = "read" /\ p.st = "data" /\ Len(d) = p.n /\ d = SubSeq(q, 1, p.n) /\ UNCHANGED vars
Consumed(t, r) == \E p \in pend : p.t = t /\ p.op = "read" /\ p.st = "data" /\ pend' = Repl(p, [p EXCEPT !.st = "pop", !.r = IF r > 0 /\ r % par.op # 0 THEN p.n ELSE r]) /\ Same
Pop(p) == /\ p \in pend /\ p.st = "pop"
          /\ IF p.r <= 0 THEN pend' = Repl(p, [p EXCEPT !.st = "done", !.r = IF p.r < 0 THEN -4 ELSE 0]) /\ Same
             ELSE /\ q' = SubSeq(q, p.r + 1, Len(q)) /\ roff' = (roff + p.r) % N /\ taken' = taken + p.r
                  /\ pend' = WakeW(Repl(p, [p EXCEPT !.st = "done", !.r = 0])) /\ UNCHANGED <<par, eod, exc, guard, canc, lost, put>>
Eod(t) == \E p \in pend : p.t = t /\ p.st = "eod" /\ pend' = Repl(p, [p EXCEPT !.st = "done"]) /\ Same
RetRead(t, op, r) == \E p \in pend : p.t = t /\ p.op = op /\ p.st = "done" /\ p.r = r /\ Ret0(p) /\ Same
\* ---- control: -1 refused
SetEod(p) == /\ p \in pend /\ p.op = "seteod" /\ p.st = "called"
             /\ IF exc = 1 THEN pend' = Repl(p, [p EXCEPT !.st = "done", !.r = -1]) /\ Same
                ELSE eod' = 1 /\ pend' = WakeR(Repl(p, [p EXCEPT !.st = "done"])) /\ UNCHANGED <<par, q, roff, exc, guard, canc, lost, taken, put>>
SetExc(p) == /\ p \in pend /\ p.op = "setexc" /\ p.st = "called"
             /\ IF eod = 1 THEN pend' = Repl(p, [p EXCEPT !.st = "done", !.r = -1]) /\ Same
                ELSE exc' = 1 /\ pend' = WakeR(Repl(p, [p EXCEPT !.st = "done"])) /\ UNCHANGED <<par, q, roff, eod, guard, canc, lost, taken, put>>
Clear(p) == /\ p \in pend /\ p.op = "clear" /\ p.st = "called"
            /\ IF Writing \/ Reading THEN pend' = Repl(p, [p EXCEPT !.st = "done", !.r = -1]) /\ Same
               ELSE /\ q' = <<>> /\ roff' = 0 /\ eod' = 0 /\ exc' = 0 /\ lost' = lost + Len(q)
                    /\ pend' = WakeW(Repl(p, [p EXCEPT !.st = "done"])) /\ UNCHANGED <<par, guard, canc, taken, put>>
Query(p) == /\ p \in pend /\ p.op \in {"size", "free", "ended"} /\ p.st = "called"
            /\ pend' = Repl(p, [p EXCEPT !.st = "done", !.r = CASE p.op = "size" -> Len(q) [] p.op = "free" -> Free [] p.op = "ended" -> IF eod = 1 \/ exc = 1 THEN 1 ELSE 0]) /\ Same
Act(p) == Acquire(p) \/ NoGuard(p) \/ Enter(p) \/ Push(p) \/ WriteWoken(p) \/ Begin(p) \/ ReadWoken(p) \/ Pop(p) \/ SetEod(p) \/ SetExc(p) \/ Clear(p) \/ Query(p)
\* the system waits: nobody waits for something that has happened
Idle == /\ \A p \in pend : /\ p.st \in {"wait", "called", "data"} /\ p.wk = 0 /\ (p.t \notin canc \/ p.st = "data")
                           /\ (p.st = "called" => p.op = "write" /\ guard # 0)
                           /\ (p.st = "wait" /\ p.op = "read" => ReadSize = 0 /\ eod = 0 /\ exc = 0)
        /\ UNCHANGED vars
------------------------------------------------------------------------------
InvCapacity == Len(q) <= N
InvConserved == put = taken + Len(q) + lost \* nothing leaves the buffer but by being consumed or cleared
InvAligned == roff % par.op = 0
InvOneReader == Cardinality({p \in pend : p.op \in {"read", "waitdata"} /\ p.st \in {"wait", "data", "eod", "pop"}}) <= 1
InvOneWriter == Cardinality({p \in pend : p.op = "write" /\ p.st \in {"in", "wait", "copy", "over"}}) <= 1
InvHeld == \A p \in pend : p.op = "read" /\ p.st \in {"data", "pop"} => p.r <= p.n /\ p.n <= Len(q)
InvRoom == \A p \in pend : p.st = "copy" => p.r <= Free
\* what the reader holds stays as it is
HeldStable == [][\A p \in pend : (p.st = "data" /\ \E r \in pend' : r.t = p.t /\ r.st = "data") => SubSeq(q', 1, p.n) = SubSeq(q, 1, p.n)]_vars
=============================================================================

-------------------------------- MODULE Pipe --------------------------------
(* A rendezvous pipe (BithreadPipe): a write holds its block in the pipe until a reader has taken all of it; optionally a reading buffer in     *)
(* front (BufferedPipe, capacity bcap) and several writers taking turns (SynchronizedPipe, sync = 1).  Bytes are numbers; 10 = \n, 13 = \r.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES bcap, sync, slot, rbuf, pend, canc, got, okw
vars == <<bcap, sync, slot, rbuf, pend, canc, got, okw>>
Min2(a, b) == IF a < b THEN a ELSE b
InitWith(b, s) == bcap = b /\ sync = s /\ slot = <<>> /\ rbuf = <<>> /\ pend = {} /\ canc = {} /\ got = <<>> /\ okw = <<>>
Repl(p, q) == pend' = (pend \ {p}) \cup {q}
Rec(t, op, d, n, c, dl) == [t |-> t, op |-> op, d |-> d, n |-> n, c |-> c, dl |-> dl, st |-> "called", acc |-> <<>>, r |-> 0]
Call(t, op, d, n, c, dl) == (~\E p \in pend : p.t = t) /\ pend' = pend \cup {Rec(t, op, d, n, c, dl)} /\ UNCHANGED <<bcap, sync, slot, rbuf, canc, got, okw>>
Cancel(c) == canc' = canc \cup {c} /\ UNCHANGED <<bcap, sync, slot, rbuf, pend, got, okw>>
\* ---- writers
Place(p) == /\ p \in pend /\ p.op = "write" /\ p.st = "called"
            /\ IF sync = 1 /\ p.d = <<>> THEN slot' = slot ELSE slot = <<>> /\ slot' = <<[o |-> p.t, d |-> p.d]>>
            /\ Repl(p, [p EXCEPT !.st = "placed"]) /\ UNCHANGED <<bcap, sync, rbuf, canc, got, okw>>
Mine(p) == slot # <<>> /\ slot[1].o = p.t
\* a write given up (its token is cancelled or expires) takes the unread rest out of the pipe
AbortW(p) == /\ p \in pend /\ p.op = "write" /\ p.st \in {"called", "placed"} /\ (p.c \in canc \/ p.dl >= 0)
             /\ slot' = (IF p.st = "placed" /\ Mine(p) THEN <<>> ELSE slot)
             /\ Repl(p, [p EXCEPT !.st = "aborted"]) /\ UNCHANGED <<bcap, sync, rbuf, canc, got, okw>>
RetWrite(t, n) == \E p \in pend : /\ p.t = t /\ p.op = "write" /\ p.st = "placed" /\ ~Mine(p) /\ n = Len(p.d)
                  /\ pend' = pend \ {p} /\ okw' = Append(okw, p.d) /\ UNCHANGED <<bcap, sync, slot, rbuf, canc, got>>
\* ---- the reader: at most n bytes of what is there, at least one unless an empty block was written
Wr == IF slot = <<>> THEN <<>> ELSE slot[1].d
AfterTake(n) == IF n >= Len(Wr) THEN <<>> ELSE <<[o |-> slot[1].o, d |-> SubSeq(Wr, n + 1, Len(Wr))]>>
Deliver(p, src) == LET b == SubSeq(src, 1, Min2(p.n, Len(src))) IN
  IF p.op = "read" THEN Repl(p, [p EXCEPT !.st = "done", !.acc = b])
  ELSE LET acc == p.acc \o b  k == Len(acc)  x == acc[k]  cr == k > 1 /\ acc[k - 1] = 13 IN
       IF b = <<>> THEN Repl(p, [p EXCEPT !.st = "aborted", !.r = 1])
       ELSE IF x = 10 THEN Repl(p, [p EXCEPT !.st = "done", !.acc = SubSeq(acc, 1, k - (IF cr THEN 2 ELSE 1))])
       ELSE IF cr THEN Repl(p, [p EXCEPT !.st = "bad", !.acc = acc])
       ELSE Repl(p, [p EXCEPT !.acc = acc])
Take(p) == /\ p \in pend /\ p.op \in {"read", "line"} /\ p.st = "called"
           /\ IF bcap = 0
              THEN slot # <<>> /\ Deliver(p, Wr) /\ slot' = AfterTake(p.n) /\ rbuf' = rbuf /\ got' = got \o SubSeq(Wr, 1, Min2(p.n, Len(Wr)))
              ELSE LET fill == rbuf = <<>>  src == IF fill THEN SubSeq(Wr, 1, Min2(bcap, Len(Wr))) ELSE rbuf  k == Min2(p.n, Len(src)) IN
                   /\ fill => slot # <<>>
                   /\ slot' = (IF fill THEN AfterTake(bcap) ELSE slot) /\ rbuf' = SubSeq(src, k + 1, Len(src)) /\ got' = got \o SubSeq(src, 1, k) /\ Deliver(p, src)
           /\ UNCHANGED <<bcap, sync, canc, okw>>
RetRead(t, op, d) == \E p \in pend : p.t = t /\ p.op = op /\ p.st = "done" /\ p.acc = d /\ pend' = pend \ {p} /\ UNCHANGED <<bcap, sync, slot, rbuf, canc, got, okw>>
RetBad(t) == \E p \in pend : p.t = t /\ p.op = "line" /\ p.st = "bad" /\ pend' = pend \ {p} /\ UNCHANGED <<bcap, sync, slot, rbuf, canc, got, okw>>
\* giving up: "cancelled" only if the token was cancelled (or has expired), "timeout" only after its deadline; a reader gives up only when nothing is there
RetGaveUp(t, op, r, n) == \E p \in pend :
  /\ p.t = t /\ p.op = op /\ (IF op = "write" THEN p.st = "aborted" ELSE p.st \in {"called", "aborted"})
  /\ (IF r = "timeout" THEN p.dl >= 0 /\ n >= p.dl ELSE p.c \in canc \/ (p.dl >= 0 /\ n >= p.dl))
  /\ pend' = pend \ {p} /\ UNCHANGED <<bcap, sync, slot, rbuf, canc, got, okw>>
Peek(p) == p \in pend /\ p.op = "peek" /\ p.st = "called" /\ Repl(p, [p EXCEPT !.st = "done", !.r = IF rbuf # <<>> \/ slot # <<>> THEN 1 ELSE 0]) /\ UNCHANGED <<bcap, sync, slot, rbuf, canc, got, okw>>
RetPeek(t, r) == \E p \in pend : p.t = t /\ p.op = "peek" /\ p.st = "done" /\ p.r = r /\ pend' = pend \ {p} /\ UNCHANGED <<bcap, sync, slot, rbuf, canc, got, okw>>
\* the system waits: nobody is left waiting for something that is there
Idle(n) == /\ \A p \in pend : /\ p.st \in {"called", "placed"} /\ p.op # "peek" /\ p.c \notin canc /\ (p.dl >= 0 => n <= p.dl)
                              /\ (p.op \in {"read", "line"} => slot = <<>> /\ rbuf = <<>>)
                              /\ (p.op = "write" => IF p.st = "called" THEN slot # <<>> ELSE Mine(p))
           /\ UNCHANGED vars
------------------------------------------------------------------------------
Els(s) == {s[i] : i \in 1..Len(s)}
\* (bytes distinct) everything read comes from a write, in its order and once; a write reported complete has been taken completely
InvOnce == \A i, j \in 1..Len(got) : i # j => got[i] # got[j]
InvComplete == \A i \in 1..Len(okw) : Els(okw[i]) \subseteq Els(got) \cup Els(rbuf)
=============================================================================

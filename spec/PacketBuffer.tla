---------------------------- MODULE PacketBuffer ----------------------------
(* A queue of packets over N bytes of storage.  A packet is stored in one piece: when it does not fit before the end of the storage, the rest  *)
(* of the storage is skipped (padding).  Writers take turns; one reader hands the oldest packet to a consumer and removes it when accepted.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES par, pk, roff, used, pad, eod, wr, pend, canc, gone
\* par: [n, disc, spur]; pk: packets stored, [d, md]; used: bytes occupied with padding; wr: thread writing (0: none); gone: history, packets taken
vars == <<par, pk, roff, used, pad, eod, wr, pend, canc, gone>>
Min2(a, b) == IF a < b THEN a ELSE b
InitWith(p) == par = p /\ pk = <<>> /\ roff = 0 /\ used = 0 /\ pad = 0 /\ eod = 0 /\ wr = 0 /\ pend = {} /\ canc = {} /\ gone = <<>>
N == par.n
Same == UNCHANGED <<par, pk, roff, used, pad, eod, wr, canc, gone>>
Call(t, op, d, md) == (~\E p \in pend : p.t = t) /\ pend' = pend \cup {[t |-> t, op |-> op, d |-> d, md |-> md, st |-> "called", wk |-> 0, r |-> 0]} /\ Same
Repl(p, r) == (pend \ {p}) \cup {r}
To(p, s, r) == pend' = Repl(p, [p EXCEPT !.st = s, !.r = r])
Cancel(t) == canc' = canc \cup {t} /\ UNCHANGED <<par, pk, roff, used, pad, eod, wr, pend, gone>>
Wake(S, op) == {IF p.st = "wait" /\ p.op = op THEN [p EXCEPT !.wk = 1] ELSE p : p \in S}
Wakeable(p) == p.wk = 1 \/ p.t \in canc \/ par.spur = 1 \/ (p.op = "read" /\ canc # {})   \* cancelling one waiting reader wakes every waiting reader
\* ---- writing: result 1 accepted, 0 not (after waiting once), -1 larger than the storage
WOff == (roff + used) % N
Room == IF roff + used < N THEN N - (roff + used) ELSE N - used   \* room at the writing position
AtEnd0 == roff + used < N
Acquire(p) == /\ p \in pend /\ p.op = "write" /\ p.st = "called"
              /\ IF Len(p.d) > N THEN To(p, "done", -1) /\ Same
                 ELSE wr = 0 /\ wr' = p.t /\ To(p, "in", 0) /\ UNCHANGED <<par, pk, roff, used, pad, eod, canc, gone>>
Padding(n) == IF AtEnd0 /\ Room < n THEN Room ELSE 0
Enter(p) == LET n == Len(p.d)
                empty == pk = <<>>          \* an empty buffer starts from the beginning: every packet that is not larger than the storage fits
                pd == IF empty THEN 0 ELSE Padding(n) IN
  /\ p \in pend /\ p.op = "write" /\ p.st = "in"
  /\ IF ~empty /\ N - used < pd + n
     THEN IF par.disc = 1 THEN To(p, "done", 1) /\ wr' = 0 /\ UNCHANGED <<par, pk, roff, used, pad, eod, canc, gone>>
          ELSE To(p, "wait", 0) /\ Same
     ELSE /\ To(p, "copy", 0) /\ roff' = (IF empty THEN 0 ELSE roff) /\ used' = used + pd /\ pad' = (IF pd > 0 THEN pd ELSE pad) /\ UNCHANGED <<par, pk, eod, wr, canc, gone>>
Push(p) == /\ p \in pend /\ p.op = "write" /\ p.st = "copy" /\ pk' = Append(pk, [d |-> p.d, md |-> p.md]) /\ used' = used + Len(p.d)
           /\ pend' = Wake(Repl(p, [p EXCEPT !.st = "done", !.r = 1]), "read") /\ wr' = 0 /\ UNCHANGED <<par, roff, pad, eod, canc, gone>>
WriteWoken(p) == p \in pend /\ p.op = "write" /\ p.st = "wait" /\ Wakeable(p) /\ To(p, "done", 0) /\ wr' = 0 /\ UNCHANGED <<par, pk, roff, used, pad, eod, canc, gone>>
\* ---- reading
Reading == \E p \in pend : p.op = "read" /\ p.st \in {"data", "pop"}
SkipPad == pad > 0 /\ roff + pad = N /\ used >= pad
Begin(p) == /\ p \in pend /\ p.op = "read" /\ p.st = "called"
            /\ IF Reading THEN To(p, "done", -1) /\ Same
               ELSE IF pk = <<>> THEN To(p, IF eod = 1 THEN "eod" ELSE "wait", 0) /\ Same
               ELSE /\ To(p, "data", 0)
                    /\ IF SkipPad THEN roff' = 0 /\ used' = used - pad /\ pad' = 0 /\ UNCHANGED <<par, pk, eod, wr, canc, gone>> ELSE Same
ReadWoken(p) == p \in pend /\ p.op = "read" /\ p.st = "wait" /\ Wakeable(p) /\ To(p, "done", 0) /\ Same
Data(t, d, md) == (\E p \in pend : p.t = t /\ p.op = "read" /\ p.st = "data") /\ pk # <<>> /\ pk[1] = [d |-> d, md |-> md] /\ UNCHANGED vars
Consumed(t, r) == \E p \in pend : p.t = t /\ p.op = "read" /\ p.st = "data" /\ To(p, "pop", r) /\ Same
Pop(p) == /\ p \in pend /\ p.op = "read" /\ p.st = "pop"
          /\ IF p.r <= 0 THEN To(p, "done", IF p.r < 0 THEN -4 ELSE 0) /\ Same
             ELSE /\ pk' = SubSeq(pk, 2, Len(pk)) /\ gone' = Append(gone, pk[1].md) /\ roff' = (roff + Len(pk[1].d)) % N /\ used' = used - Len(pk[1].d)
                  /\ pend' = Wake(Repl(p, [p EXCEPT !.st = "done", !.r = 0]), "write") /\ UNCHANGED <<par, pad, eod, wr, canc>>
Eod(t) == \E p \in pend : p.t = t /\ p.st = "eod" /\ To(p, "done", 0) /\ Same
\* ---- control
SetEod(p) == p \in pend /\ p.op = "seteod" /\ p.st = "called" /\ eod' = 1 /\ pend' = Wake(Repl(p, [p EXCEPT !.st = "done"]), "read") /\ UNCHANGED <<par, pk, roff, used, pad, wr, canc, gone>>
Copying == \E p \in pend : p.op = "write" /\ p.st = "copy"
Clear(p) == /\ p \in pend /\ p.op = "clear" /\ p.st = "called"
            /\ IF Reading THEN To(p, "done", -1) /\ Same
               ELSE /\ pk' = <<>> /\ roff' = WOff /\ used' = 0 /\ pad' = 0 /\ eod' = 0
                    /\ pend' = Wake(Repl(p, [p EXCEPT !.st = "done"]), "write") /\ UNCHANGED <<par, wr, canc, gone>>
Query(p) == /\ p \in pend /\ p.op \in {"size", "free"} /\ p.st = "called" /\ To(p, "done", IF p.op = "size" THEN used ELSE N - used) /\ Same
Ret(t, op, r) == \E p \in pend : p.t = t /\ p.op = op /\ p.st = "done" /\ p.r = r /\ pend' = pend \ {p} /\ Same
Act(p) == Acquire(p) \/ Enter(p) \/ Push(p) \/ WriteWoken(p) \/ Begin(p) \/ ReadWoken(p) \/ Pop(p) \/ SetEod(p) \/ Clear(p) \/ Query(p)
\* the system waits: a packet that fits is not refused for ever, nobody misses a wake-up
Idle == /\ \A p \in pend : /\ p.st \in {"wait", "called", "data"} /\ p.wk = 0 /\ (p.st = "wait" => p.t \notin canc)
                           /\ (p.st = "called" => p.op = "write" /\ wr # 0)
                           /\ (p.st = "wait" => IF p.op = "read" THEN pk = <<>> /\ eod = 0 ELSE pk # <<>>)
        /\ UNCHANGED vars
------------------------------------------------------------------------------
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Len(s[1].d) + Sum(SubSeq(s, 2, Len(s)))
InvCapacity == used <= N /\ roff < N
InvSizes == used = Sum(pk) + (IF pad > 0 THEN pad ELSE 0)
InvOneReader == Cardinality({p \in pend : p.op = "read" /\ p.st \in {"data", "pop"}}) <= 1
InvOneWriter == Cardinality({p \in pend : p.op = "write" /\ p.st \in {"in", "wait", "copy"}}) <= 1
InvRoom == \A p \in pend : p.st = "copy" => Len(p.d) <= N - used
\* the packet being written is in one piece
InvOnePiece == \A p \in pend : p.st = "copy" => Len(p.d) <= Room
\* the packet the consumer works on stays where it is
HeldStable == [][\A p \in pend : (p.st = "data" /\ \E r \in pend' : r.t = p.t /\ r.st = "data") => (pk' # <<>> /\ pk'[1] = pk[1])]_vars
=============================================================================

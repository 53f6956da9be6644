------------------------------- MODULE Paged -------------------------------
(* Paged buffer: a byte sequence kept in pages of ps bytes; writers (one at a time) append at the end, one reader at a time is given the      *)
(* bytes from the cursor to the end of its page, Pop drops bytes at the front, Seek moves the cursor. All positions are absolute.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES par, bytes, vis, start, cur, guard, pend, canc, cand
\* par: [ps, ch, spur]; bytes: everything committed so far; vis: written to the last page by the push in progress and not committed; start: popped so far; cur: cursor;
\* canc: tokens being cancelled or cancelled, cand: cancelled
vars == <<par, bytes, vis, start, cur, guard, pend, canc, cand>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
InitWith(p) == par = p /\ bytes = <<>> /\ vis = <<>> /\ start = 0 /\ cur = 0 /\ guard = 0 /\ pend = {} /\ canc = {} /\ cand = {}
N == Len(bytes)
TailRoom == (par.ps - (N % par.ps)) % par.ps
Same == UNCHANGED <<par, bytes, vis, start, cur, guard, canc, cand>>
Call(t, op, d, n) == (~\E p \in pend : p.t = t) /\ pend' = pend \cup {[t |-> t, op |-> op, d |-> d, n |-> n, st |-> "called", wk |-> 0, r |-> 0]} /\ Same
Repl(p, r) == (pend \ {p}) \cup {r}
Done(p, r) == [p EXCEPT !.st = "done", !.r = r]
Cancelled(t) == t \in canc /\ cand' = cand \cup {t} /\ UNCHANGED <<par, bytes, vis, start, cur, guard, pend, canc>>
Cancel(t) == canc' = canc \cup {t} /\ UNCHANGED <<par, bytes, vis, start, cur, guard, pend, cand>>
WakeR(S) == {IF p.st = "wait" THEN [p EXCEPT !.wk = 1] ELSE p : p \in S}
\* ---- pushing: -1 given up waiting for another push, -2 a page failed
Acquire(p) == /\ p \in pend /\ p.op = "push" /\ p.st = "called" /\ guard = 0 /\ guard' = p.t
              /\ pend' = Repl(p, [p EXCEPT !.st = IF TailRoom > 0 /\ Len(p.d) > 0 THEN "tail" ELSE "rest"]) /\ UNCHANGED <<par, bytes, vis, start, cur, canc, cand>>
NoGuard(p) == p \in pend /\ p.op = "push" /\ p.st = "called" /\ p.t \in canc /\ pend' = Repl(p, Done(p, -1)) /\ Same
\* the bytes are in the page, but not counted yet
TailWritten(p) == /\ p \in pend /\ p.st = "tail" /\ vis = <<>> /\ vis' = SubSeq(p.d, 1, Min2(TailRoom, Len(p.d))) /\ UNCHANGED <<par, bytes, start, cur, guard, pend, canc, cand>>
TailCommit(p) == LET k == Len(vis) IN
  /\ p \in pend /\ p.st = "tail" /\ k > 0 /\ bytes' = bytes \o vis /\ vis' = <<>>
  /\ pend' = WakeR(Repl(p, [p EXCEPT !.st = "rest", !.d = SubSeq(p.d, k + 1, Len(p.d))])) /\ UNCHANGED <<par, start, cur, guard, canc, cand>>
RestCommit(p) == /\ p \in pend /\ p.st = "rest" /\ bytes' = bytes \o p.d /\ (pend' = WakeR(Repl(p, Done(p, 0))) \/ (p.d = <<>> /\ pend' = Repl(p, Done(p, 0))))
                 /\ guard' = 0 /\ UNCHANGED <<par, vis, start, cur, canc, cand>>
Fail(t) == \E p \in pend : /\ p.t = t /\ p.st \in {"tail", "rest"} /\ (p.st = "tail" => vis = <<>>)
                           /\ pend' = Repl(p, Done(p, -2)) /\ guard' = 0 /\ UNCHANGED <<par, bytes, vis, start, cur, canc, cand>>
\* ---- reading: -1 another read is in progress, -3 cancelled (nothing is consumed), -4 the consumer threw (nothing is consumed)
Reading == \E p \in pend : p.op = "read" /\ p.st \in {"wait", "data", "taken"}
Begin(p) == /\ p \in pend /\ p.op = "read" /\ p.st = "called"
            /\ pend' = Repl(p, IF Reading THEN Done(p, -1) ELSE IF N < cur + par.ch THEN [p EXCEPT !.st = "wait"] ELSE [p EXCEPT !.st = "data", !.n = cur])
            /\ Same
Woken(p) == p \in pend /\ p.st = "wait" /\ (p.wk = 1 \/ p.t \in canc \/ par.spur = 1) /\ pend' = Repl(p, Done(p, 0)) /\ Same
All == bytes \o vis
\* what the page holds from the cursor on: at least what was there when the read began
Data(t, d) == \E p \in pend : /\ p.t = t /\ p.st = "data" /\ Len(d) >= par.ch /\ p.n + Len(d) <= Len(All) /\ (p.n % par.ps) + Len(d) <= par.ps
                              /\ d = SubSeq(All, p.n + 1, p.n + Len(d)) /\ UNCHANGED vars
Consumed(t, r) == \E p \in pend : p.t = t /\ p.st = "data" /\ pend' = Repl(p, [p EXCEPT !.st = "taken", !.r = r]) /\ Same
\* the cursor advances by the whole chunks consumed, unless it was moved meanwhile
Advance(p) == /\ p \in pend /\ p.st = "taken"
              /\ \/ p.r >= 0 /\ p.t \notin cand /\ cur' = (IF cur = p.n THEN cur + (p.r - (p.r % par.ch)) ELSE cur) /\ pend' = Repl(p, Done(p, 0))
                 \/ cur' = cur /\ (p.r < 0 \/ p.t \in canc) /\ pend' = Repl(p, Done(p, IF p.r < 0 THEN -4 ELSE -3))
              /\ UNCHANGED <<par, bytes, vis, start, guard, canc, cand>>
\* ---- control: -1 refused
Pop(p) == /\ p \in pend /\ p.op = "pop" /\ p.st = "called"
          /\ IF p.n > N - start \/ p.n % par.ch # 0 THEN pend' = Repl(p, Done(p, -1)) /\ Same
             ELSE start' = start + p.n /\ cur' = Max2(cur, start + p.n) /\ pend' = Repl(p, Done(p, 0)) /\ UNCHANGED <<par, bytes, vis, guard, canc, cand>>
Seek(p) == /\ p \in pend /\ p.op = "seek" /\ p.st = "called"
           /\ IF p.n > N - start \/ p.n % par.ch # 0 THEN pend' = Repl(p, Done(p, -1)) /\ Same
              ELSE cur' = start + p.n /\ pend' = WakeR(Repl(p, Done(p, 0))) /\ UNCHANGED <<par, bytes, vis, start, guard, canc, cand>>
Size(p) == p \in pend /\ p.op = "size" /\ p.st = "called" /\ pend' = Repl(p, Done(p, N - start)) /\ Same
Ret(t, op, r) == \E p \in pend : p.t = t /\ p.op = op /\ p.st = "done" /\ p.r = r /\ pend' = pend \ {p} /\ Same
Act(p) == Acquire(p) \/ NoGuard(p) \/ TailWritten(p) \/ TailCommit(p) \/ RestCommit(p) \/ Begin(p) \/ Woken(p) \/ Advance(p) \/ Pop(p) \/ Seek(p) \/ Size(p)
\* the system waits: only a reader without a whole chunk after the cursor
Idle == (\A p \in pend : p.op = "read" /\ p.st = "wait" /\ p.wk = 0 /\ p.t \notin cand /\ N < cur + par.ch) /\ UNCHANGED vars
------------------------------------------------------------------------------
InvCursor == start <= cur /\ cur <= Len(All) /\ start <= N
InvAligned == start % par.ch = 0 /\ cur % par.ch = 0
InvOneReader == Cardinality({p \in pend : p.op = "read" /\ p.st \in {"wait", "data", "taken"}}) <= 1
InvOneWriter == Cardinality({p \in pend : p.op = "push" /\ p.st \in {"tail", "rest"}}) <= 1
InvPage == vis # <<>> => (N % par.ps) + Len(vis) <= par.ps
\* nothing stored is changed or lost, popped bytes never come back
AppendOnly == [][Len(bytes') >= N /\ SubSeq(bytes', 1, N) = bytes /\ start' >= start]_vars
\* the cursor moves only by a read (forwards, over what was given to the consumer), a seek or a pop
CursorMoves == [][cur' # cur => \/ \E p \in pend : p.st = "taken" /\ cur = p.n /\ cur' <= p.n + p.r
                                \/ \E p \in pend : p.op \in {"seek", "pop"} /\ p.st = "called"]_vars
=============================================================================

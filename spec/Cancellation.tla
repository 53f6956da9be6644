---------------------------- MODULE Cancellation ----------------------------
(* Cancellable waits: threads wait on condition variables or sleep with a token made of plain tokens (joined and/or timed);  *)
(* other threads notify, cancel and reset.  A wait is called and finishes with the variable's mutex held, and notifications    *)
(* are made with it held, so a notification between the two certainly meets the waiter.                                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES
  jit, spur,   \* time may pass at any moment / condition variables may wake spuriously
  canc,        \* plain tokens that are cancelled
  busy,        \* plain tokens being cancelled: the cancel took effect, its handler may not have been called to the end
  pend,        \* calls in progress, see the constructors below
  last         \* history: the last wait that finished
vars == <<jit, spur, canc, busy, pend, last>>
NOW0 == [op |-> "none", res |-> "none", can |-> 0, live |-> 0, note |-> 0, dl |-> -1, tdl |-> -1, at |-> 0]
InitWith(j, s) == jit = j /\ spur = s /\ canc = {} /\ busy = {} /\ pend = {} /\ last = NOW0
B(x) == IF x THEN 1 ELSE 0
Max(a, b) == IF a > b THEN a ELSE b
P(t, op, toks, cv, dl, tdl, from) == [t |-> t, op |-> op, toks |-> toks, cv |-> cv, dl |-> dl, tdl |-> tdl, from |-> from, st |-> "called", tok |-> 0,
   can |-> B(toks \cap canc # {}), live |-> B(toks \cap canc = {}), note |-> 0,
   may |-> B(\E q \in pend : q.op = "cancel" /\ q.st = "notifying" /\ cv \in q.toks)]
Free(t) == ~\E p \in pend : p.t = t
\* cancelling one waiter's token wakes the other waiters of its condition variable too (may)
\* a wait: can = one of its plain tokens was cancelled at some moment of the wait; live = at some moment none was; note = notified while none was cancelled
CallWait(t, toks, cv, dl, n) == Free(t) /\ pend' = pend \cup {P(t, "wait", toks, cv, dl, -1, n)} /\ UNCHANGED <<jit, spur, canc, busy, last>>
Hit(p, dlv, n) == jit = 0 => n = Max(dlv, p.from)
Fin(p, r, n) == last' = [op |-> p.op, res |-> r, can |-> p.can, live |-> p.live, note |-> Max(p.note, p.may), dl |-> p.dl, tdl |-> p.tdl, at |-> n]
RetWait(t, res, n) == \E p \in pend : /\ p.t = t /\ p.op = "wait" /\ pend' = pend \ {p} /\ Fin(p, res, n)
   /\ (CASE res = "Cancelled" -> p.can = 1
        [] res = "TimedOut" -> p.dl >= 0 /\ n >= p.dl /\ Hit(p, p.dl, n)
        [] res = "Broadcasted" -> IF spur = 1 THEN p.live = 1 ELSE IF p.may = 1 THEN p.live = 1 ELSE p.note = 1)
   /\ UNCHANGED <<jit, spur, canc, busy>>
\* a sleep of its own duration (dl) on a token that may have an earlier deadline (tdl): true = slept to the end
CallSleep(t, toks, dl, tdl, n) == Free(t) /\ pend' = pend \cup {P(t, "sleep", toks, 0, dl, tdl, n)} /\ UNCHANGED <<jit, spur, canc, busy, last>>
RetSleep(t, res, n) == \E p \in pend : /\ p.t = t /\ p.op = "sleep" /\ pend' = pend \ {p} /\ Fin(p, IF res = 1 THEN "slept" ELSE "woken", n)
   /\ (IF res = 1 THEN p.live = 1 /\ p.dl >= 0 /\ n >= p.dl /\ Hit(p, p.dl, n) /\ (p.tdl < 0 \/ p.tdl >= p.dl \/ p.from >= p.dl)
       ELSE IF p.can = 1 THEN TRUE ELSE IF spur = 1 THEN TRUE ELSE p.tdl >= 0 /\ n >= p.tdl /\ Hit(p, p.tdl, n))
   /\ UNCHANGED <<jit, spur, canc, busy>>
Notify(t, cv) == pend' = {IF p.op = "wait" /\ p.cv = cv /\ p.toks \cap canc = {} THEN [p EXCEPT !.note = 1] ELSE p : p \in pend} /\ UNCHANGED <<jit, spur, canc, busy, last>>
\* cancelling and resetting a plain token
CallTok(t, op, x) == Free(t) /\ pend' = pend \cup {[P(t, op, {}, 0, -1, -1, 0) EXCEPT !.tok = x]} /\ UNCHANGED <<jit, spur, canc, busy, last>>
Cvs(x) == {p.cv : p \in {q \in pend : q.op = "wait" /\ x \in q.toks}}
Mark(p, x) == IF p.op \in {"wait", "sleep"} /\ x \in p.toks THEN [p EXCEPT !.can = 1] ELSE IF p.op = "wait" /\ p.cv \in Cvs(x) THEN [p EXCEPT !.may = 1] ELSE p
LinCancel(p) == /\ p \in pend /\ p.op = "cancel" /\ p.st = "called"
                /\ pend' = {IF p.tok \in canc THEN q ELSE Mark(q, p.tok) : q \in pend \ {p}} \cup {[p EXCEPT !.st = IF p.tok \in canc THEN "done" ELSE "notifying", !.toks = Cvs(p.tok)]}
                /\ canc' = canc \cup {p.tok} /\ busy' = (IF p.tok \in canc THEN busy ELSE busy \cup {p.tok}) /\ UNCHANGED <<jit, spur, last>>
RetCancel(t, x) == \E p \in pend : /\ p.t = t /\ p.op = "cancel" /\ p.tok = x /\ p.st \in {"notifying", "done"} /\ pend' = pend \ {p}
                                   /\ busy' = (IF p.st = "notifying" THEN busy \ {x} ELSE busy) /\ UNCHANGED <<jit, spur, canc, last>>
\* a reset fails while the token is being cancelled or waited on
LinReset(p) == /\ p \in pend /\ p.op = "reset" /\ p.st = "called"
               /\ \/ /\ canc' = canc \ {p.tok} /\ busy' = busy \ {p.tok}
                     /\ pend' = {IF q.op = "cancel" /\ q.tok = p.tok /\ q.st = "notifying" THEN [q EXCEPT !.st = "done"] ELSE
                                 IF q.op \in {"wait", "sleep"} /\ q.toks \cap (canc \ {p.tok}) = {} THEN [q EXCEPT !.live = 1] ELSE q : q \in pend \ {p}} \cup {[p EXCEPT !.st = "ok"]}
                  \/ /\ (p.tok \in busy \/ \E q \in pend : q.op \in {"wait", "sleep"} /\ p.tok \in q.toks)
                     /\ pend' = (pend \ {p}) \cup {[p EXCEPT !.st = "exc"]} /\ UNCHANGED <<canc, busy>>
               /\ UNCHANGED <<jit, spur, last>>
RetReset(t, x, r) == \E p \in pend : p.t = t /\ p.op = "reset" /\ p.tok = x /\ p.st = r /\ pend' = pend \ {p} /\ UNCHANGED <<jit, spur, canc, busy, last>>
Query(toks, c) == c = B(toks \cap canc # {}) /\ UNCHANGED vars
QueryTime(dl, x, n) == x = B(dl >= 0 /\ n >= dl) /\ UNCHANGED vars
\* the whole system waits for time to pass: nobody waits who was notified, cancelled or out of time
Over(p, n) == p.note = 1 \/ p.toks \cap canc # {} \/ (p.dl >= 0 /\ p.dl <= n) \/ (p.tdl >= 0 /\ p.tdl <= n)
Idle(n) == (\A p \in pend : p.op \in {"wait", "sleep"} => ~Over(p, n)) /\ UNCHANGED vars
------------------------------------------------------------------------------
CancelledOnlyIfCancelled == last.res = "Cancelled" => last.can = 1
TimedOutOnlyAfterDeadline == last.res = "TimedOut" => (last.dl >= 0 /\ last.at >= last.dl)
NotifiedMeansNotified == (last.res = "Broadcasted" /\ spur = 0) => (last.note = 1 /\ last.live = 1)
SleptMeansSlept == last.res = "slept" => (last.at >= last.dl /\ last.live = 1)
WokenMeansCancelled == (last.res = "woken" /\ spur = 0) => (last.can = 1 \/ (last.tdl >= 0 /\ last.at >= last.tdl))
=============================================================================

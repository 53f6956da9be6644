------------------------------- MODULE Timer -------------------------------
(* A timer: tasks with due times executed by one thread in order of due time (equal due times: order of addition), periodic *)
(* tasks re-armed after each execution, tasks removed by resetting their token.  Time is the virtual clock of the run.      *)
(* A due time is known to lie in an interval [lo, hi]: the clock is read by the code somewhere inside the call.  In runs    *)
(* with jit = 0 time only passes while every thread waits, so the intervals are points and promptness is judged too.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES
  jit,        \* 1: time may pass while threads are ready (then lateness is not judged)
  pending,    \* tasks: [k, lo, hi, per, tok, thr, st, pred]  (per = 0: one-shot; tok = 0: no token; st: "adding" | "armed" | "rearming";
              \* pred: the tasks that were certainly armed before this one was added)
  cur, phase, exec,  \* the task being executed, "idle" | "run" | "thrown", the timer's thread
  dead,       \* tokens released
  pend,       \* calls in progress [t, op, k, at]
  begat, lastEnd, state, closeAt,
  last, killed, added   \* history: the last execution; <<t, tok>> releases returned; tasks added
vars == <<jit, pending, cur, phase, exec, dead, pend, begat, lastEnd, state, closeAt, last, killed, added>>
hist == <<last, killed, added>>
NONE == [k |-> 0, lo |-> 0, at |-> 0, over |-> 0]
InitWith(j) == /\ jit = j /\ pending = {} /\ cur = <<>> /\ phase = "idle" /\ exec = -1 /\ dead = {} /\ pend = {} /\ begat = 0
               /\ lastEnd = 0 /\ state = "open" /\ closeAt = 0 /\ last = NONE /\ killed = {} /\ added = {}
Max(a, b) == IF a > b THEN a ELSE b
Call(t, op, k, n) == (~\E p \in pend : p.t = t) /\ pend' = pend \cup {[t |-> t, op |-> op, k |-> k, at |-> n]}
Killing == {p.k : p \in {q \in pend : q.op = "reset"}}
Dead(r) == r.tok # 0 /\ r.tok \in dead
Sure(r) == r.st # "adding" /\ (r.tok = 0 \/ r.tok \notin dead \cup Killing)
\* adding: the task may start before the call has returned
CallAdd(t, k, to, per, tok, thr, n) ==
  /\ Call(t, "add", k, n)
  /\ pending' = pending \cup {[k |-> k, lo |-> n + to, hi |-> n + to, per |-> per, tok |-> tok, thr |-> thr, st |-> "adding", pred |-> {r.k : r \in {q \in pending : q.st = "armed"}}]}
  /\ UNCHANGED <<jit, cur, phase, exec, dead, begat, lastEnd, state, closeAt, hist>>
RetAdd(t, n) == \E p \in pend :
  /\ p.t = t /\ p.op = "add" /\ pend' = pend \ {p} /\ added' = added \cup {p.k}
  /\ pending' = {IF r.k = p.k /\ r.st = "adding" THEN [r EXCEPT !.st = "armed", !.hi = r.lo + (n - p.at)] ELSE r : r \in pending}
  /\ UNCHANGED <<jit, cur, phase, exec, dead, begat, lastEnd, state, closeAt, last, killed>>
\* releasing a task's token: a barrier unless called by the task itself
CallReset(t, tok, n) == Call(t, "reset", tok, n) /\ UNCHANGED <<jit, pending, cur, phase, exec, dead, begat, lastEnd, state, closeAt, hist>>
Forget(S, ks) == {[r EXCEPT !.pred = r.pred \ ks] : r \in S}
RetReset(t, n) == \E p \in pend :
  /\ p.t = t /\ p.op = "reset" /\ pend' = pend \ {p} /\ killed' = killed \cup {<<t, p.k>>} /\ dead' = dead \cup {p.k}
  /\ ~(phase = "run" /\ cur[1].tok = p.k /\ exec # t)
  /\ LET gone == {r \in pending : r.tok = p.k} IN pending' = Forget(pending \ gone, {r.k : r \in gone})
  /\ UNCHANGED <<jit, cur, phase, exec, begat, lastEnd, state, closeAt, last, added>>
\* the timer's thread.  A task is not started early; nothing that is certainly due before it may be left armed; and when time only passes
\* while everybody waits it is not started late either
Before(r, k) == Sure(r) /\ (r.hi < k.lo \/ (r.hi = k.lo /\ r.k \in k.pred))
Begin(t, k, n) == \E r \in pending :
  /\ r.k = k /\ ~Dead(r) /\ phase = "idle" /\ state # "closed" /\ exec \in {-1, t}
  /\ n >= r.lo /\ (~\E q \in pending \ {r} : Before(q, r)) /\ (jit = 0 => n = Max(r.lo, lastEnd))
  /\ cur' = <<r>> /\ pending' = Forget({IF q.st = "rearming" THEN [q EXCEPT !.st = "armed"] ELSE q : q \in pending \ {r}}, {k})
  /\ phase' = "run" /\ exec' = t /\ begat' = n
  /\ last' = [k |-> k, lo |-> r.lo, at |-> n, over |-> Cardinality({q \in pending : Sure(q) /\ q.hi < r.lo})]
  /\ UNCHANGED <<jit, dead, pend, lastEnd, state, closeAt, killed, added>>
NoNested(t) == ~\E p \in pend : p.t = t
\* a periodic task is re-armed (unless released, or the timer is being destroyed); its period is counted from the start of this execution
Rearm == LET r == cur[1] IN
         IF r.per = 0 \/ Dead(r) THEN pending' = pending
         ELSE \/ pending' = pending \cup {[r EXCEPT !.lo = (IF jit = 0 THEN begat ELSE Max(r.lo, lastEnd)) + r.per, !.hi = begat + r.per, !.st = "rearming", !.pred = {q.k : q \in {x \in pending : x.st = "armed"}}]}
              \/ state = "closing" /\ pending' = pending
NoCur == cur' = <<>> /\ begat' = 0
End(t, k, n) == /\ phase = "run" /\ exec = t /\ cur[1].k = k /\ cur[1].thr = 0 /\ NoNested(t) /\ Rearm
                /\ phase' = "idle" /\ NoCur /\ lastEnd' = n /\ UNCHANGED <<jit, exec, dead, pend, state, closeAt, hist>>
Throw(t, k, n) == /\ phase = "run" /\ exec = t /\ cur[1].k = k /\ cur[1].thr = 1 /\ NoNested(t)
                  /\ phase' = "thrown" /\ UNCHANGED <<jit, pending, cur, exec, dead, pend, begat, lastEnd, state, closeAt, hist>>
Handler(t, k, n) == /\ phase = "thrown" /\ exec = t /\ cur[1].k = k /\ Rearm
                    /\ phase' = "idle" /\ NoCur /\ lastEnd' = n /\ UNCHANGED <<jit, exec, dead, pend, state, closeAt, hist>>
\* destruction: what is due is executed, the rest is dropped, nothing runs afterwards
CallClose(t, n) == state = "open" /\ state' = "closing" /\ closeAt' = n /\ UNCHANGED <<jit, pending, cur, phase, exec, dead, pend, begat, lastEnd, hist>>
RetClose(t, n) == /\ state = "closing" /\ phase = "idle" /\ (\A r \in pending : Sure(r) => r.hi > closeAt)
                  /\ state' = "closed" /\ pending' = {} /\ UNCHANGED <<jit, cur, phase, exec, dead, pend, begat, lastEnd, closeAt, hist>>
\* the whole system waits for time to pass: everything due earlier has been executed
Idle(n) == /\ phase # "thrown" /\ ((phase = "idle" /\ lastEnd < n) => \A r \in pending : Sure(r) => r.hi >= n)
           /\ UNCHANGED vars
------------------------------------------------------------------------------
NeverEarly == last.at >= last.lo
InOrder == last.over = 0
NoBeginAfterReset == [][(phase # "run" /\ phase' = "run") => \A x \in killed : x[2] # cur'[1].tok]_vars
ResetIsBarrier == [][\A x \in killed' \ killed : (phase = "run" /\ cur[1].tok = x[2]) => exec = x[1]]_vars
NothingAfterClose == state = "closed" => (phase = "idle" /\ pending = {})
\* an armed task leaves the set only by being executed, released, or dropped at destruction
NothingLost == [][\A r \in pending : (state' # "closed" /\ r.st # "adding") => (r.tok \in dead' \/ (\E q \in pending' : q.k = r.k) \/ (phase' = "run" /\ cur'[1].k = r.k))]_vars
PeriodicGoesOn == [][(phase # "idle" /\ phase' = "idle" /\ state = "open" /\ cur[1].per > 0 /\ ~Dead(cur[1])) => \E q \in pending' : q.k = cur[1].k /\ q.lo >= last.lo + q.per]_vars
=============================================================================

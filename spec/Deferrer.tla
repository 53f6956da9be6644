------------------------------ MODULE Deferrer ------------------------------
(* ExecutionDeferrer over a timer: Defer hands a function to the timer's thread, which arms it and by that replaces the function armed before; *)
(* Cancel (and destruction) withdraws both.  Each operation is call / steps / return; the timer's thread arms and executes.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES
  jit,          \* 1: time passes at any moment (only lower bounds are judged)
  dd, conn,     \* the hand-over pending on the timer: <<>> or <<[k, due, to, per]>>; the armed function: <<>> or <<[k, due, per]>>
  phase, cur, exec, selfc, begat, lastEnd,
  pend,         \* calls in progress [t, op, k, at, to, per, st]
  closed,
  seen, done    \* history: functions whose Defer has returned; functions withdrawn by a Cancel that has returned
vars == <<jit, dd, conn, phase, cur, exec, selfc, begat, lastEnd, pend, closed, seen, done>>
InitWith(j) == /\ jit = j /\ dd = <<>> /\ conn = <<>> /\ phase = "idle" /\ cur = <<>> /\ exec = -1 /\ selfc = 0 /\ begat = 0 /\ lastEnd = 0 /\ pend = {} /\ closed = 0
               /\ seen = {} /\ done = {}
Els(s) == {s[i] : i \in 1..Len(s)}
Max(a, b) == IF a > b THEN a ELSE b
Call(p) == (~\E q \in pend : q.t = p.t) /\ pend' = pend \cup {p}
Step(p, s) == pend' = (pend \ {p}) \cup {[p EXCEPT !.st = s]}
TimerSame == UNCHANGED <<phase, cur, exec, begat, lastEnd>>
CallDefer(t, k, to, per, n) == Call([t |-> t, op |-> "defer", k |-> k, at |-> n, to |-> to, per |-> per, st |-> "called", sn |-> {}]) /\ TimerSame /\ UNCHANGED <<jit, dd, conn, selfc, closed, seen, done>>
LinDefer(p) == /\ p \in pend /\ p.op = "defer" /\ p.st = "called" /\ Step(p, "done")
               /\ dd' = <<[k |-> p.k, due |-> p.at, to |-> p.to, per |-> p.per]>> /\ TimerSame /\ UNCHANGED <<jit, conn, selfc, closed, seen, done>>
RetDefer(t) == \E p \in pend : p.t = t /\ p.op = "defer" /\ p.st = "done" /\ pend' = pend \ {p} /\ seen' = seen \cup {p.k} /\ TimerSame /\ UNCHANGED <<jit, dd, conn, selfc, closed, done>>
\* Cancel: withdraw the pending hand-over, then the armed function (waiting for it if it runs elsewhere); a Cancel that meets another one at work returns at once
CallCancel(t, op) == Call([t |-> t, op |-> op, k |-> 0, at |-> 0, to |-> 0, per |-> 0, st |-> "called", sn |-> seen]) /\ TimerSame /\ UNCHANGED <<jit, dd, conn, selfc, closed, seen, done>>
CancelA(p) == p \in pend /\ p.op \in {"cancel", "close"} /\ p.st = "called" /\ Step(p, "half") /\ dd' = <<>> /\ TimerSame /\ UNCHANGED <<jit, conn, selfc, closed, seen, done>>
CancelB(p) == /\ p \in pend /\ p.st = "half" /\ ~(phase = "run" /\ exec # p.t /\ selfc = 0) /\ Step(p, "done") /\ conn' = <<>>
              /\ selfc' = (IF phase = "run" THEN 1 ELSE 0) /\ TimerSame /\ UNCHANGED <<jit, dd, closed, seen, done>>
CancelSkip(p) == /\ p \in pend /\ p.op = "cancel" /\ p.st = "called" /\ (\E q \in pend : q.op = "cancel" /\ q.t # p.t /\ q.st # "skip") /\ Step(p, "skip")
                 /\ TimerSame /\ UNCHANGED <<jit, dd, conn, selfc, closed, seen, done>>
RetCancel(t, op) == \E p \in pend : /\ p.t = t /\ p.op = op /\ p.st \in {"done", "skip"} /\ pend' = pend \ {p} /\ closed' = (IF op = "close" THEN 1 ELSE closed)
                    /\ done' = (IF p.st = "done" THEN done \cup p.sn ELSE done) /\ TimerSame /\ UNCHANGED <<jit, dd, conn, selfc, seen>>
\* the timer's thread
Arm == /\ phase = "idle" /\ dd # <<>> /\ (jit = 0 => \A c \in Els(conn) : c.due >= dd[1].due)
       /\ conn' = <<[k |-> dd[1].k, due |-> Max(dd[1].due, lastEnd) + dd[1].to, per |-> dd[1].per]>> /\ dd' = <<>>
       /\ TimerSame /\ UNCHANGED <<jit, selfc, pend, closed, seen, done>>
Begin(t, k, n) == /\ phase = "idle" /\ conn # <<>> /\ conn[1].k = k /\ exec \in {-1, t} /\ n >= conn[1].due
                  /\ (jit = 0 => n = Max(conn[1].due, lastEnd) /\ (\A d \in Els(dd) : d.due >= conn[1].due))
                  /\ phase' = "run" /\ cur' = conn /\ exec' = t /\ selfc' = 0 /\ begat' = n
                  /\ UNCHANGED <<jit, dd, conn, lastEnd, pend, closed, seen, done>>
\* a one-shot function is gone; a repeating one is armed again unless withdrawn meanwhile
End(t, k, n) == /\ phase = "run" /\ exec = t /\ cur[1].k = k /\ (~\E p \in pend : p.t = t) /\ phase' = "idle" /\ cur' = <<>> /\ lastEnd' = n /\ selfc' = 0 /\ begat' = 0
                /\ conn' = (IF cur[1].per = 0 THEN <<>> ELSE IF conn = <<>> THEN <<>> ELSE <<[conn[1] EXCEPT !.due = (IF jit = 0 THEN begat ELSE conn[1].due) + conn[1].per]>>)
                /\ UNCHANGED <<jit, dd, exec, pend, closed, seen, done>>
Idle(n) == (phase = "idle" /\ lastEnd < n => \A c \in Els(dd) \cup Els(conn) : c.due >= n) /\ UNCHANGED vars
------------------------------------------------------------------------------
CancelIsFinal == [][(phase # "run" /\ phase' = "run") => cur'[1].k \notin done]_vars
CancelIsBarrier == [][(done' # done /\ phase = "run" /\ cur[1].k \in done' \ done /\ selfc = 0) => FALSE]_vars
CloseIsFinal == closed = 1 => (conn = <<>> /\ dd = <<>>)
OnlyArmedRuns == [][(phase # "run" /\ phase' = "run") => cur' = conn]_vars
\* a withdrawal happens only by a later Defer, a Cancel or execution: what is armed last stays armed
NothingLost == [][(conn # <<>> /\ conn' = <<>>) => (phase' # phase \/ \E p \in pend : p.op \in {"cancel", "close"})]_vars
=============================================================================

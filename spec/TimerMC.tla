------------------------------ MODULE TimerMC ------------------------------
EXTENDS Timer
CONSTANTS T, Tasks, MaxNow, Timeouts, Periods, Jit
VARIABLES now, runs
Worker == 9
mvars == <<vars, now, runs>>
MInit == InitWith(Jit) /\ now = 0 /\ runs = 0
Used == added \cup {p.k : p \in {q \in pend : q.op = "add"}}
NextK == {k \in Tasks : k \notin Used /\ \A j \in Tasks : j < k => j \in Used}
Actors == T \cup (IF phase = "run" THEN {exec} ELSE {})
\* time passes: with jitter at any moment, otherwise only when nothing due is waiting
Tick == /\ now < MaxNow /\ now' = now + 1 /\ (Jit = 0 => pend = {} /\ phase \in {"idle", "run"} /\ (phase = "idle" => \A r \in pending : r.lo > now))
        /\ UNCHANGED vars
Op ==
  \/ \E t \in Actors, k \in NextK, to \in Timeouts, pe \in Periods : state = "open" /\ CallAdd(t, k, to, pe, k, IF k = 2 THEN 1 ELSE 0, now)
  \/ \E t \in T \cup {Worker} : RetAdd(t, now) \/ RetReset(t, now)
  \/ \E t \in Actors, k \in added \ dead : k \notin Killing /\ CallReset(t, k, now)
  \/ \E k \in Tasks : End(Worker, k, now) \/ Throw(Worker, k, now) \/ Handler(Worker, k, now)
  \/ (\A p \in pend : p.t = Worker) /\ (CallClose(0, now) \/ RetClose(0, now))
MNext == \/ Op /\ UNCHANGED <<now, runs>>
         \/ \E k \in Tasks : Begin(Worker, k, now) /\ runs' = runs + 1 /\ UNCHANGED now
         \/ Tick /\ UNCHANGED runs
MSpec == MInit /\ [][MNext]_mvars
Bound == runs <= 4
\* promptness: with no jitter nothing is overdue when time passes
Prompt == [][(Jit = 0 /\ now' > now /\ phase = "idle") => \A r \in pending : ~(r.st = "armed" /\ r.hi < now')]_mvars
=============================================================================

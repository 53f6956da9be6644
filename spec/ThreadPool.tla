----------------------------- MODULE ThreadPool -----------------------------
(* A pool of at most `max' threads.  An accepted task occupies a thread from its acceptance until it has ended; a           *)
(* submission is refused, or waits, exactly while all threads are occupied.  Tasks get a token that is cancelled when the  *)
(* pool is destroyed; destruction waits for running tasks, and tasks accepted but not yet started may be given up then.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES
  max,       \* limit of threads
  idleTo,    \* idle timeout, 0: threads are kept
  tasks,     \* tasks occupying a thread: set of [k, thr, st, t]; st: "queued", "run", "thrown", "done"
  pend,      \* submissions in progress: set of [t, op, k, thr, dl, canc, res]
  cancelled, \* the clients' cancellation tokens: 0 no, 1 being cancelled, 2 cancelled
  state,     \* "open", "closing", "closed"
  last       \* the last step, for the properties
vars == <<max, idleTo, tasks, pend, cancelled, state, last>>

InitWith(m, i) == max = m /\ idleTo = i /\ tasks = {} /\ pend = {} /\ cancelled = [x \in 1..3 |-> 0] /\ state = "open" /\ last = <<"init">>

Occupied == Cardinality(tasks)
Full == Occupied >= max

Call(t, op, k, thr, dl, canc) ==
  /\ \A p \in pend : p.t # t
  /\ pend' = pend \cup {[t |-> t, op |-> op, k |-> k, thr |-> thr, dl |-> dl, canc |-> canc, res |-> "none"]}
  /\ last' = <<"call">> /\ UNCHANGED <<max, idleTo, tasks, cancelled, state>>
Resolve(p, r) == pend' = (pend \ {p}) \cup {[p EXCEPT !.res = r]}
Accept(p) == /\ p \in pend /\ p.res = "none" /\ p.op \in {"try", "queue", "wait"} /\ ~Full
             /\ tasks' = tasks \cup {[k |-> p.k, thr |-> p.thr, st |-> "queued", t |-> -1]}
             /\ Resolve(p, "ok") /\ last' = <<"accept", p.k>> /\ UNCHANGED <<max, idleTo, cancelled, state>>
Refuse(p) == /\ p \in pend /\ p.res = "none" /\ p.op \in {"try", "queue", "can"} /\ Full
             /\ Resolve(p, "no") /\ last' = <<"refuse", Occupied>> /\ UNCHANGED <<max, idleTo, tasks, cancelled, state>>
Offer(p)  == /\ p \in pend /\ p.res = "none" /\ p.op = "can" /\ ~Full
             /\ Resolve(p, "ok") /\ last' = <<"offer">> /\ UNCHANGED <<max, idleTo, tasks, cancelled, state>>
Ret(t, op, r) == /\ \E p \in pend : p.t = t /\ p.op = op /\ p.res = r /\ pend' = pend \ {p}
                 /\ last' = <<"ret">> /\ UNCHANGED <<max, idleTo, tasks, cancelled, state>>
\* giving up waiting: only because the token was cancelled or its deadline passed
Expired(p, now) == p.dl >= 0 /\ now >= p.dl
RetGaveUp(t, r, now) ==
  /\ \E p \in pend : /\ p.t = t /\ p.op = "wait" /\ p.res = "none" /\ pend' = pend \ {p}
                     /\ (r = "timeout" => Expired(p, now))
                     /\ (r = "cancelled" => Expired(p, now) \/ (IF p.canc > 0 THEN cancelled[p.canc] > 0 ELSE FALSE))
  /\ last' = <<"gaveup">> /\ UNCHANGED <<max, idleTo, tasks, cancelled, state>>
CallCancel(x) == cancelled' = [cancelled EXCEPT ![x] = IF @ = 0 THEN 1 ELSE @] /\ last' = <<"cancel">> /\ UNCHANGED <<max, idleTo, tasks, pend, state>>
RetCancel(x) == cancelled' = [cancelled EXCEPT ![x] = 2] /\ last' = <<"cancel">> /\ UNCHANGED <<max, idleTo, tasks, pend, state>>

\* execution
Running(x) == x.st \in {"run", "thrown"}
Begin(t, k) == /\ state # "closed" /\ \A x \in tasks : Running(x) => x.t # t
               /\ \E x \in tasks : x.k = k /\ x.st = "queued" /\ tasks' = (tasks \ {x}) \cup {[x EXCEPT !.st = "run", !.t = t]}
               /\ last' = <<"begin", k>> /\ UNCHANGED <<max, idleTo, pend, cancelled, state>>
InCall(t) == \E p \in pend : p.t = t
End(t, k)   == /\ ~InCall(t)
               /\ \E x \in tasks : x.k = k /\ x.st = "run" /\ x.t = t /\ x.thr = 0 /\ tasks' = (tasks \ {x}) \cup {[x EXCEPT !.st = "done"]}
               /\ last' = <<"end", k>> /\ UNCHANGED <<max, idleTo, pend, cancelled, state>>
Throw(t, k) == /\ ~InCall(t)
               /\ \E x \in tasks : x.k = k /\ x.st = "run" /\ x.t = t /\ x.thr = 1 /\ tasks' = (tasks \ {x}) \cup {[x EXCEPT !.st = "thrown"]}
               /\ last' = <<"throw", k>> /\ UNCHANGED <<max, idleTo, pend, cancelled, state>>
Handler(t, k) == /\ \E x \in tasks : x.k = k /\ x.st = "thrown" /\ x.t = t /\ tasks' = (tasks \ {x}) \cup {[x EXCEPT !.st = "done"]}
                 /\ last' = <<"handler", k>> /\ UNCHANGED <<max, idleTo, pend, cancelled, state>>
Free == /\ \E x \in tasks : x.st = "done" /\ tasks' = tasks \ {x}
        /\ last' = <<"free">> /\ UNCHANGED <<max, idleTo, pend, cancelled, state>>
\* the token a task runs with is cancelled only by the destruction of the pool
Stopped(k, c) == /\ \E x \in tasks : x.k = k /\ x.st = "run" /\ c = 1 /\ state = "closing"
                 /\ UNCHANGED vars

CallClose == state = "open" /\ pend = {} /\ state' = "closing" /\ last' = <<"close">> /\ UNCHANGED <<max, idleTo, tasks, pend, cancelled>>
RetClose == state = "closing" /\ (\A x \in tasks : ~Running(x)) /\ state' = "closed" /\ last' = <<"closed">> /\ UNCHANGED <<max, idleTo, tasks, pend, cancelled>>

\* everything is at rest at this moment: accepted tasks have started, nobody waits without a reason, surplus idle threads are gone
Idle(now, thr) ==
  /\ \A x \in tasks : x.st = "run"
  /\ \A p \in pend : p.res = "none" /\ p.op = "wait" /\ Full /\ ~Expired(p, now) /\ (IF p.canc > 0 THEN cancelled[p.canc] # 2 ELSE TRUE)
  /\ thr <= max
  /\ LET was == IF last[1] = "atrest" THEN last[2] ELSE now IN
       /\ (idleTo > 0 /\ tasks = {} /\ now - was > 3 * idleTo => thr <= 1)
       /\ last' = IF tasks = {} THEN <<"atrest", was>> ELSE <<"idle">>
  /\ UNCHANGED <<max, idleTo, tasks, pend, cancelled, state>>

------------------------------------------------------------------------------
\* properties
Limit == Cardinality({x \in tasks : Running(x)}) <= max
OneEach == \A x, y \in tasks : x.k = y.k => x = y
NothingRunsAfterClose == state = "closed" => \A x \in tasks : ~Running(x)
RefusedOnlyFull == last[1] = "refuse" => last[2] >= max
OneTaskPerThread == \A x, y \in tasks : Running(x) /\ Running(y) /\ x.t = y.t => x = y
=============================================================================

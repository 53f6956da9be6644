---------------------------- MODULE TaskExecutor ----------------------------
(* Task executors: a FIFO queue of tasks, one task executed at a time, exceptions routed to the exception handler,         *)
(* execution guarded by life tokens.  kind = "thread": a worker thread drains the queue, destruction waits for it          *)
(* (ThreadTaskExecutor).  kind = "threadless": tasks run inside ExecuteTasks calls of client threads, at most one of which *)
(* is active (ThreadlessTaskExecutor).                                                                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES
  kind,     \* "thread" | "threadless"
  queue,    \* tasks accepted and not yet taken: sequence of [k, tok, thr]
  cur,      \* <<>> or <<task>>: the task taken
  phase,    \* "idle" | "taken" | "run" | "thrown"
  exec,     \* thread executing tasks now, -1 if none
  dead,     \* life tokens already released
  cancelled,\* the cancellation token given to ExecuteTasks has been cancelled
  pend,     \* calls in progress: set of [t, op, arg, lin]
  state,    \* "open" | "closing" | "closed"
  enq, begun, cleared, killed   \* history: acceptance order, execution order, tasks cleared, <<thread, token>> whose release has returned

vars == <<kind, queue, cur, phase, exec, dead, cancelled, pend, state, enq, begun, cleared, killed>>
hist == <<enq, begun, cleared, killed>>
NoTok == 0

InitWith(k) ==
        /\ kind = k /\ queue = <<>> /\ cur = <<>> /\ phase = "idle" /\ exec = -1 /\ dead = {} /\ cancelled = FALSE /\ pend = {} /\ state = "open"
        /\ enq = <<>> /\ begun = <<>> /\ cleared = {} /\ killed = {}

Alive(task) == task.tok = NoTok \/ task.tok \notin dead
\* a thread has at most one call in progress, except that the executing thread may make calls from inside a task
Busy(t) == \E p \in pend : p.t = t /\ ~(t = exec /\ p.op = "run")
Call(t, op, arg) == ~Busy(t) /\ pend' = pend \cup {[t |-> t, op |-> op, arg |-> arg, lin |-> FALSE]}
Done(p) == pend' = (pend \ {p}) \cup {[p EXCEPT !.lin = TRUE]}
Ret(t, op) == \E p \in pend : p.t = t /\ p.op = op /\ p.lin /\ pend' = pend \ {p}

CallAdd(t, task) == /\ state = "open" \/ (state = "closing" /\ phase = "run" /\ t = exec)
                    /\ Call(t, "add", <<task.k, task.tok, task.thr>>) /\ UNCHANGED <<kind, queue, cur, phase, exec, dead, cancelled, state, hist>>
LinAdd(p) == /\ p \in pend /\ p.op = "add" /\ ~p.lin
             /\ LET r == [k |-> p.arg[1], tok |-> p.arg[2], thr |-> p.arg[3]] IN queue' = Append(queue, r) /\ enq' = Append(enq, r) /\ Done(p)
             /\ UNCHANGED <<kind, cur, phase, exec, dead, cancelled, state, begun, cleared, killed>>
RetAdd(t) == Ret(t, "add") /\ UNCHANGED <<kind, queue, cur, phase, exec, dead, cancelled, state, hist>>

\* releasing a life token: takes effect only while no other thread is inside a task guarded by it
CallKill(t, tok) == Call(t, "kill", <<tok>>) /\ UNCHANGED <<kind, queue, cur, phase, exec, dead, cancelled, state, hist>>
LinKill(p) == /\ p \in pend /\ p.op = "kill" /\ ~p.lin
              /\ ~(phase = "run" /\ cur[1].tok = p.arg[1] /\ exec # p.t)
              /\ dead' = dead \cup {p.arg[1]} /\ Done(p)
              /\ UNCHANGED <<kind, queue, cur, phase, exec, cancelled, state, hist>>
RetKill(t) == /\ \E p \in pend : p.t = t /\ p.op = "kill" /\ p.lin /\ pend' = pend \ {p} /\ killed' = killed \cup {<<t, p.arg[1]>>}
              /\ UNCHANGED <<kind, queue, cur, phase, exec, dead, cancelled, state, enq, begun, cleared>>

\* dropping everything that has not been taken (ThreadlessTaskExecutor::ClearTasks)
CallClear(t) == kind = "threadless" /\ Call(t, "clear", <<>>) /\ UNCHANGED <<kind, queue, cur, phase, exec, dead, cancelled, state, hist>>
LinClear(p) == /\ p \in pend /\ p.op = "clear" /\ ~p.lin
               /\ queue' = <<>> /\ cleared' = cleared \cup {queue[i].k : i \in 1..Len(queue)} /\ Done(p)
               /\ UNCHANGED <<kind, cur, phase, exec, dead, cancelled, state, enq, begun, killed>>
RetClear(t) == Ret(t, "clear") /\ UNCHANGED <<kind, queue, cur, phase, exec, dead, cancelled, state, hist>>

CallCancel(t) == Call(t, "cancel", <<>>) /\ UNCHANGED <<kind, queue, cur, phase, exec, dead, cancelled, state, hist>>
LinCancel(p) == /\ p \in pend /\ p.op = "cancel" /\ ~p.lin /\ cancelled' = TRUE /\ Done(p)
                /\ UNCHANGED <<kind, queue, cur, phase, exec, dead, state, hist>>
RetCancel(t) == Ret(t, "cancel") /\ UNCHANGED <<kind, queue, cur, phase, exec, dead, cancelled, state, hist>>

\* ExecuteTasks(token): a second concurrent or nested runner is refused at once; the active one stops when the queue is empty or it is cancelled
CallRun(t, canc) == /\ kind = "threadless" /\ (~\E p \in pend : p.t = t /\ p.op # "run")
                    /\ pend' = pend \cup {[t |-> t, op |-> "run", arg |-> <<canc, Cardinality({p \in pend : p.t = t})>>, lin |-> FALSE]}
                    /\ UNCHANGED <<kind, queue, cur, phase, exec, dead, cancelled, state, hist>>
RunStart(p) == /\ p \in pend /\ p.op = "run" /\ ~p.lin /\ exec = -1
               /\ exec' = p.t /\ UNCHANGED <<kind, queue, cur, phase, dead, cancelled, pend, state, hist>>
RunRefused(p) == /\ p \in pend /\ p.op = "run" /\ ~p.lin /\ exec # -1 /\ (exec = p.t => p.arg[2] > 0)
                 /\ Done(p) /\ UNCHANGED <<kind, queue, cur, phase, exec, dead, cancelled, state, hist>>
RunEnd(p) == /\ p \in pend /\ p.op = "run" /\ ~p.lin /\ exec = p.t /\ p.arg[2] = 0 /\ phase = "idle"
             /\ queue = <<>> \/ (p.arg[1] = 1 /\ cancelled)
             /\ exec' = -1 /\ Done(p) /\ UNCHANGED <<kind, queue, cur, phase, dead, cancelled, state, hist>>
RetRun(t) == /\ \E p \in pend : p.t = t /\ p.op = "run" /\ p.lin /\ (\A q \in pend : q.t = t => q.op = "run" /\ q.arg[2] <= p.arg[2]) /\ pend' = pend \ {p}
             /\ UNCHANGED <<kind, queue, cur, phase, exec, dead, cancelled, state, hist>>

MayTake(t) == IF kind = "thread" THEN state # "closed"
              ELSE exec = t /\ \E p \in pend : p.t = t /\ p.op = "run" /\ ~p.lin /\ p.arg[2] = 0 /\ (p.arg[1] = 1 => ~cancelled)
Take(t) == /\ phase = "idle" /\ queue # <<>> /\ MayTake(t)
           /\ cur' = <<Head(queue)>> /\ queue' = Tail(queue) /\ phase' = "taken"
           /\ UNCHANGED <<kind, exec, dead, cancelled, pend, state, hist>>
Drop == /\ phase = "taken" /\ ~Alive(cur[1]) /\ phase' = "idle" /\ cur' = <<>>
        /\ UNCHANGED <<kind, queue, exec, dead, cancelled, pend, state, hist>>
Begin(t, k) == /\ phase = "taken" /\ cur[1].k = k /\ Alive(cur[1])
               /\ IF kind = "thread" THEN exec \in {-1, t} ELSE exec = t
               /\ phase' = "run" /\ exec' = t /\ begun' = Append(begun, k)
               /\ UNCHANGED <<kind, queue, cur, dead, cancelled, pend, state, enq, cleared, killed>>
NoNested(t) == \A p \in pend : p.t = t => p.op = "run" /\ ~p.lin /\ p.arg[2] = 0
End(t, k) == /\ phase = "run" /\ exec = t /\ cur[1].k = k /\ cur[1].thr = 0 /\ NoNested(t)
             /\ phase' = "idle" /\ cur' = <<>> /\ UNCHANGED <<kind, queue, exec, dead, cancelled, pend, state, hist>>
Throw(t, k) == /\ phase = "run" /\ exec = t /\ cur[1].k = k /\ cur[1].thr = 1 /\ NoNested(t)
               /\ phase' = "thrown" /\ UNCHANGED <<kind, queue, cur, exec, dead, cancelled, pend, state, hist>>
Handler(t, k) == /\ phase = "thrown" /\ exec = t /\ cur[1].k = k
                 /\ phase' = "idle" /\ cur' = <<>> /\ UNCHANGED <<kind, queue, exec, dead, cancelled, pend, state, hist>>

\* ThreadTaskExecutor: destruction waits until everything accepted has been executed
Drained == phase = "idle" /\ queue = <<>>
CallClose(t) == kind = "thread" /\ state = "open" /\ state' = "closing" /\ UNCHANGED <<kind, queue, cur, phase, exec, dead, cancelled, pend, hist>>
RetClose(t)  == state = "closing" /\ Drained /\ state' = "closed" /\ UNCHANGED <<kind, queue, cur, phase, exec, dead, cancelled, pend, hist>>
\* the whole system has come to rest: nothing accepted is left behind
Idle == /\ pend = {} /\ phase = "idle" /\ (kind = "thread" => Drained) /\ UNCHANGED vars

------------------------------------------------------------------------------
\* properties
Ids(s) == [i \in 1..Len(s) |-> s[i].k]
AtMostOnce == \A i, j \in 1..Len(begun) : begun[i] = begun[j] => i = j
PosIn(s, k) == CHOOSE i \in 1..Len(s) : s[i] = k
Fifo == \A i, j \in 1..Len(begun) : i < j => PosIn(Ids(enq), begun[i]) < PosIn(Ids(enq), begun[j])
OnlyAccepted == \A i \in 1..Len(begun) : \E j \in 1..Len(enq) : enq[j].k = begun[i]
\* once the release of a token has returned, no task guarded by it starts ...
NoBeginAfterRelease == [][(phase # "run" /\ phase' = "run") => \A kt \in killed : kt[2] # cur'[1].tok]_vars
\* ... and when it returns, none is running in another thread
ReleaseIsBarrier == [][\A kt \in killed' \ killed : (phase = "run" /\ cur[1].tok = kt[2]) => exec = kt[1]]_vars
NothingLost == state = "closed" => \A i \in 1..Len(enq) : (\E j \in 1..Len(begun) : begun[j] = enq[i].k) \/ ~Alive(enq[i])
NothingLostThreadless == \A i \in 1..Len(enq) : \/ \E j \in 1..Len(begun) : begun[j] = enq[i].k
                                                \/ ~Alive(enq[i]) \/ enq[i].k \in cleared
                                                \/ \E j \in 1..Len(queue) : queue[j].k = enq[i].k
                                                \/ cur # <<>> /\ cur[1].k = enq[i].k
OneRunner == kind = "threadless" => (phase = "run" => \E p \in pend : p.t = exec /\ p.op = "run" /\ ~p.lin)
=============================================================================

--------------------------- MODULE TaskExecutorMC ---------------------------
EXTENDS TaskExecutor
CONSTANTS Kinds, Clients, Tasks, Toks, WithNested
Worker == 50
MCInit == \E k \in Kinds : InitWith(k)
Used == {enq[i].k : i \in 1..Len(enq)} \cup {p.arg[1] : p \in {q \in pend : q.op = "add"}}
NextTask == {k \in Tasks : k \notin Used /\ \A j \in Tasks : j < k => j \in Used}
TaskRecs == {[k |-> x[1], tok |-> x[2], thr |-> IF x[1] = 2 THEN 1 ELSE 0] : x \in NextTask \X (Toks \cup {NoTok})}
Threads == Clients \cup {Worker}
Actors == Clients \cup (IF WithNested /\ phase = "run" THEN {exec} ELSE {})
MCNext ==
  \/ \E t \in Actors, r \in TaskRecs : CallAdd(t, r)
  \/ \E t \in Threads : RetAdd(t) \/ RetKill(t) \/ RetClear(t) \/ RetCancel(t) \/ RetRun(t)
  \/ \E p \in pend : LinAdd(p) \/ LinKill(p) \/ LinClear(p) \/ LinCancel(p) \/ RunStart(p) \/ RunRefused(p) \/ RunEnd(p)
  \/ \E t \in Actors, k \in Toks : k \notin dead /\ CallKill(t, k)
  \/ \E t \in Actors : cleared = {} /\ CallClear(t)
  \/ \E t \in Actors : ~cancelled /\ kind = "threadless" /\ CallCancel(t)
  \/ \E t \in Actors, c \in {0, 1} : Cardinality({p \in pend : p.op = "run"}) < 2 /\ CallRun(t, c)
  \/ \E t \in (IF kind = "thread" THEN {Worker} ELSE Clients) : Take(t) \/ \E k \in Tasks : Begin(t, k) \/ End(t, k) \/ Throw(t, k) \/ Handler(t, k)
  \/ Drop
  \/ pend = {} /\ \E t \in {0} : CallClose(t) \/ RetClose(t)
  \/ RetClose(0)
MCSpec == MCInit /\ [][MCNext]_vars
View == <<kind, queue, cur, phase, exec, dead, cancelled, pend, state, enq, begun, cleared, killed>>
=============================================================================

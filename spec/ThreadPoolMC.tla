---------------------------- MODULE ThreadPoolMC ----------------------------
EXTENDS ThreadPool
CONSTANTS Clients, Ks, Maxes, Ops, Nested
VARIABLES now, used
Workers == {50 + i : i \in 1..Cardinality(Ks)}
mv == <<vars, now, used>>
MCInit == (\E m \in Maxes : InitWith(m, 0)) /\ now = 0 /\ used = {}
\* workers are interchangeable: the first free one takes the task
IdleW(t) == \A u \in Workers : u < t => \E x \in tasks : Running(x) /\ x.t = u
NextK == {k \in Ks : k \notin used /\ \A j \in Ks : j < k => j \in used}
Callers == Clients \cup (IF Nested THEN {x.t : x \in {y \in tasks : y.st = "run"}} ELSE {})
MCNext ==
  \/ /\ state = "open" /\ \E t \in Callers, op \in Ops, k \in NextK, d \in {-1, 1}, c \in {0, 1} :
          /\ (op # "wait" => d = -1 /\ c = 0) /\ (op = "wait" => t \in Clients)
          /\ Call(t, op, k, IF k = 2 THEN 1 ELSE 0, d, c) /\ used' = used \cup {k}
     /\ UNCHANGED now
  \/ /\ UNCHANGED <<now, used>>
     /\ \/ \E t \in Callers, op \in Ops, r \in {"ok", "no"} : Ret(t, op, r)
        \/ \E t \in Clients, r \in {"timeout", "cancelled"} : RetGaveUp(t, r, now)
        \/ CallCancel(1) \/ (cancelled[1] = 1 /\ RetCancel(1))
        \/ \E t \in Workers, k \in Ks : (IdleW(t) /\ Begin(t, k)) \/ End(t, k) \/ Throw(t, k) \/ Handler(t, k)
        \/ \E p \in pend : Accept(p) \/ Refuse(p) \/ Offer(p)
        \/ Free \/ RetClose
  \/ /\ (\A x \in tasks : ~\E p \in pend : p.t = x.t) /\ CallClose /\ UNCHANGED <<now, used>>
  \/ now < 1 /\ now' = now + 1 /\ UNCHANGED <<vars, used>>
MCSpec == MCInit /\ [][MCNext]_mv
=============================================================================

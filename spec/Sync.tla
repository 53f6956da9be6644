-------------------------------- MODULE Sync --------------------------------
(* Synchronisation primitives; one object per history: a recursive mutex with a condition variable (mutex), a spin lock (spin), a semaphore (sem),        *)
(* a barrier for n threads (bar), an atomic value or flag or a value synchronised by its mutex (atom).                                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANT Threads
VARIABLES kd,    \* [b: kind, n: threads of a party of the barrier, loose: 1: waits may end without reason]
          own, dep,   \* owner of the mutex (-1: none) and depth
          val,   \* permits, atomic value
          wt,    \* thread -> 0 not waiting, 1 waiting, 2 woken
          arr,   \* threads of the barrier's incomplete party
          rel,   \* thread -> party it was released with, 0: none
          gave,  \* parties one thread of which was told that it is the last
          np,    \* parties released so far
          pc
vars == <<kd, own, dep, val, wt, arr, rel, gave, np, pc>>
Idle == [op |-> "", a |-> 0, b |-> 0, at |-> 0, st |-> 0, r |-> 0]
Bit(p) == IF p THEN 1 ELSE 0
Init0 == kd = [b |-> "", n |-> 0, loose |-> 0] /\ own = -1 /\ dep = 0 /\ val = 0 /\ wt = [t \in Threads |-> 0] /\ arr = {} /\ rel = [t \in Threads |-> 0] /\ gave = {} /\ np = 0 /\ pc = [t \in Threads |-> Idle]
Kind(b, n, loose, v) == kd' = [b |-> b, n |-> n, loose |-> loose] /\ val' = v /\ UNCHANGED <<own, dep, wt, arr, rel, gave, np, pc>>
Call(t, op, a, b, at) == pc[t].op = "" /\ pc' = [pc EXCEPT ![t] = [Idle EXCEPT !.op = op, !.a = a, !.b = b, !.at = at]] /\ UNCHANGED <<kd, own, dep, val, wt, arr, rel, gave, np>>
Fin(t, r) == pc' = [pc EXCEPT ![t].st = 2, ![t].r = r]
Aft(t, op) == pc[t].op = op /\ pc[t].st = 0
\* ---- mutex, spin lock
Lock(t) == Aft(t, "lock") /\ (own = -1 \/ (own = t /\ kd.b = "mutex")) /\ own' = t /\ dep' = dep + 1 /\ Fin(t, 0) /\ UNCHANGED <<kd, val, wt, arr, rel, gave, np>>
Unlock(t) ==
  /\ Aft(t, "unlock") /\ UNCHANGED <<kd, val, wt, arr, rel, gave, np>>
  /\ IF own = t THEN dep' = dep - 1 /\ own' = (IF dep = 1 THEN -1 ELSE t) /\ Fin(t, 0) ELSE Fin(t, -1) /\ UNCHANGED <<own, dep>>   \* by a stranger: an exception
\* ---- condition variable: a wait releases the mutex and holds it again when it ends; a timed one returns 0 when it timed out
Park(t) == (Aft(t, "wait") \/ Aft(t, "twait")) /\ own = t /\ dep = 1 /\ own' = -1 /\ dep' = 0 /\ wt' = [wt EXCEPT ![t] = 1] /\ pc' = [pc EXCEPT ![t].st = 1] /\ UNCHANGED <<kd, val, arr, rel, gave, np>>
Bcast(t) == Aft(t, "bcast") /\ wt' = [u \in Threads |-> IF wt[u] = 1 THEN 2 ELSE wt[u]] /\ Fin(t, 0) /\ UNCHANGED <<kd, own, dep, val, arr, rel, gave, np>>
Woken(t) ==
  /\ wt[t] # 0 /\ pc[t].st = 1 /\ own = -1 /\ own' = t /\ dep' = 1 /\ wt' = [wt EXCEPT ![t] = 0] /\ UNCHANGED <<kd, val, arr, rel, gave, np>>
  /\ \/ (wt[t] = 2 \/ kd.loose = 1) /\ Fin(t, 1)
     \/ pc[t].op = "twait" /\ Fin(t, 0)
\* ---- semaphore; post a permits one after another
Acq(t) == (Aft(t, "acq") \/ Aft(t, "tacq")) /\ val > 0 /\ val' = val - 1 /\ Fin(t, 1) /\ UNCHANGED <<kd, own, dep, wt, arr, rel, gave, np>>
NoAcq(t) == Aft(t, "tacq") /\ Fin(t, 0) /\ UNCHANGED <<kd, own, dep, val, wt, arr, rel, gave, np>>
Post(t) == Aft(t, "post") /\ (IF pc[t].a = 0 THEN Fin(t, 0) /\ UNCHANGED val ELSE val' = val + 1 /\ pc' = [pc EXCEPT ![t].a = @ - 1]) /\ UNCHANGED <<kd, own, dep, wt, arr, rel, gave, np>>
\* ---- barrier
Arrive(t) ==
  /\ Aft(t, "bar") /\ UNCHANGED <<kd, own, dep, val, wt, gave>>
  /\ LET p == arr \cup {t} IN
     IF Cardinality(p) = kd.n THEN arr' = {} /\ np' = np + 1 /\ rel' = [u \in Threads |-> IF u \in p THEN np + 1 ELSE rel[u]] /\ pc' = [pc EXCEPT ![t].st = 1]
     ELSE arr' = p /\ pc' = [pc EXCEPT ![t].st = 1] /\ UNCHANGED <<np, rel>>
\* one thread of each party is told 1
Out(t) ==
  /\ pc[t].op = "bar" /\ pc[t].st = 1 /\ rel[t] # 0 /\ rel' = [rel EXCEPT ![t] = 0] /\ UNCHANGED <<kd, own, dep, val, wt, arr, np>>
  /\ \/ rel[t] \notin gave /\ gave' = gave \cup {rel[t]} /\ Fin(t, 1)
     \/ (rel[t] \in gave \/ \E u \in Threads : u # t /\ rel[u] = rel[t]) /\ Fin(t, 0) /\ UNCHANGED gave
\* ---- atomic values: a result and a new value
At(op, a, b) ==
  CASE op = "inc" -> <<val + 1, val + 1>> [] op = "dec" -> <<val - 1, val - 1>> [] op = "add" -> <<val + a, val + a>> [] op = "sub" -> <<val - a, val - a>>
    [] op = "fadd" -> <<val, val + a>> [] op = "fsub" -> <<val, val - a>> [] op = "load" -> <<val, val>> [] op = "store" -> <<0, a>>
    [] op = "cas" -> <<val, IF val = a THEN b ELSE val>> [] op = "tas" -> <<Bit(val = 0), 1>> [] op = "clr" -> <<0, 0>>
AtomOps == {"inc", "dec", "add", "sub", "fadd", "fsub", "load", "store", "cas", "tas", "clr"}
Atom(t) == pc[t].op \in AtomOps /\ pc[t].st = 0 /\ LET x == At(pc[t].op, pc[t].a, pc[t].b) IN val' = x[2] /\ Fin(t, x[1]) /\ UNCHANGED <<kd, own, dep, wt, arr, rel, gave, np>>
Do(t) == Lock(t) \/ Unlock(t) \/ Park(t) \/ Bcast(t) \/ Woken(t) \/ Acq(t) \/ NoAcq(t) \/ Post(t) \/ Arrive(t) \/ Out(t) \/ Atom(t)
\* a timed operation fails only after its timeout
Ret(t, op, r, at) ==
  /\ pc[t].op = op /\ op # "" /\ pc[t].st = 2 /\ pc[t].r = r
  /\ (op \in {"twait", "tacq"} /\ r = 0 => at - pc[t].at >= pc[t].b)
  /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<kd, own, dep, val, wt, arr, rel, gave, np>>
------------------------------------------------------------------------------
\* the mutex is released or held by one thread, and waiting threads do not hold it
Held == (own = -1 <=> dep = 0) /\ dep >= 0 /\ \A t \in Threads : wt[t] # 0 => own # t
Permits == kd.b = "sem" => val >= 0
\* at most one thread of a party is told, and a party that all have left had one
Told == \A g \in 1..np : (\A t \in Threads : rel[t] # g) => g \in gave
Party == Cardinality(arr) < kd.n \/ arr = {}
=============================================================================

----------------------------- MODULE SharedPtrMC -----------------------------
EXTENDS SharedPtr, TLC
CONSTANTS Threads, PerT, MaxOb, Ops
\* thread t works on the pointers t * 2 and t * 2 + 1; a new object is made by thread 0 only; handing over: thread 0 moves a copy to an idle thread
Init == Init0
Mine(t) == {t * PerT + x : x \in 0..PerT - 1}
Next ==
  \/ \E t \in Threads, op \in Ops : \E i \in Mine(t), j \in Mine(t) : Call(t, op, i, j, 0, 0)
  \/ \E i \in Mine(0), k \in {0, 1} : Len(ob) < MaxOb /\ Call(0, "new", i, i, Len(ob) + 1, k)
  \/ \E i \in Mine(0), k \in {0, 1} : Len(ob) < MaxOb /\ Call(0, "newfail", i, i, Len(ob) + 1, k)
  \/ \E t \in Threads : t # 0 /\ (\E i \in Mine(0), j \in Mine(t) : Call(0, "copy", j, i, 0, 0) /\ ~\E p \in pend : p.t = t)
  \/ \E p \in pend : Do(p) \/ Rel(p) \/ (p.rel # <<>> /\ (Deleter(p.t, Ow(p.rel[1])) \/ Destroy(p.t, Ow(p.rel[1])))) \/ Ret(p.t, p.op, p.r)
Spec == Init /\ [][Next]_vars
\* handing over happens while the receiver does nothing
Handover == \A p, q \in pend : p.t = 0 /\ p.i \notin Mine(0) /\ q.t # 0 => p.i \notin Mine(q.t)
=============================================================================

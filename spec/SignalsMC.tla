------------------------------ MODULE SignalsMC ------------------------------
EXTENDS Signals
CONSTANTS T, H, MaxOps, MaxDepth, Guarded, Popul, AllowAsync, Worker
VARIABLE ops
mvars == <<vars, ops>>
MInit == InitWith(Guarded, "any", Popul) /\ ops = 0
Op(A) == ops < MaxOps /\ A /\ ops' = ops + 1
Deep(t) == Len(Stk(t)) < MaxDepth
NewH == {h \in H : \A i \in 1..Len(order) : order[i] # h} \ {f.h : f \in {g \in Frames : g.op = "conn"}}
NextH == IF NewH = {} THEN {} ELSE {CHOOSE h \in NewH : \A g \in NewH : h <= g}
AllT == T \cup (IF AllowAsync THEN {Worker} ELSE {})
Silent0(A) == A /\ UNCHANGED ops
MNext ==
  \/ \E t \in AllT : (IF t = Worker THEN Stk(t) # <<>> ELSE TRUE) /\ Deep(t) /\ Op(
             \/ CallInv(t, "inv", 100 + ops)
             \/ (Popul > 0 /\ CallInv(t, "set", 100 + ops))
             \/ \E h \in NextH : \E a \in (IF AllowAsync THEN {0, 1} ELSE {0}) : CallConn(t, h, a, 1)
             \/ \E h \in H : CallReset(t, h))
  \/ \E t \in AllT : Silent0(LockSet(t) \/ Snapshot(t) \/ Pass(t) \/ UnlockSet(t) \/ LockConn(t) \/ EnqPop(t) \/ Add(t) \/ Remove(t) \/ Kill(t) \/ RetInv(t, "inv") \/ RetInv(t, "set") \/ RetConn(t, TRUE) \/ RetReset(t) \/ PopThrew(t))
  \/ \E t \in AllT : \E h \in H : Silent0((AtHandler(t) /\ Begin(t, h, Top(t).v)) \/ BeginPop(t, h, cur) \/ End(t, h) \/ Throw(t, h) \/ Handler(t, h))
  \/ AllowAsync /\ \E e \in queue : Silent0(ExecBegin(Worker, e.h, e.v))
MSpec == MInit /\ [][MNext]_mvars
=============================================================================

------------------------------- MODULE SyncMC -------------------------------
EXTENDS Sync, TLC
CONSTANTS Kinds, MaxVal, MaxParties
KQ == {[b |-> "mutex", n |-> 0, loose |-> 0], [b |-> "mutex", n |-> 0, loose |-> 1], [b |-> "spin", n |-> 0, loose |-> 0], [b |-> "sem", n |-> 0, loose |-> 0], [b |-> "bar", n |-> 2, loose |-> 0], [b |-> "bar", n |-> 3, loose |-> 0], [b |-> "atom", n |-> 0, loose |-> 0]}
Init == \E k \in Kinds, v \in 0..1 : (k.b \in {"sem", "atom"} \/ v = 0)
          /\ kd = k /\ own = -1 /\ dep = 0 /\ val = v /\ wt = [t \in Threads |-> 0] /\ arr = {} /\ rel = [t \in Threads |-> 0] /\ gave = {} /\ np = 0 /\ pc = [t \in Threads |-> Idle]
Ops(t) == CASE kd.b = "mutex" -> (IF dep < 2 \/ own # t THEN {"lock"} ELSE {}) \cup {"bcast", "unlock"} \cup (IF own = t /\ dep = 1 THEN {"wait", "twait"} ELSE {})
            [] kd.b = "spin" -> IF own = t THEN {"unlock"} ELSE {"lock"}
            [] kd.b = "sem" -> {"acq", "tacq"} \cup (IF val < MaxVal THEN {"post"} ELSE {})
            [] kd.b = "bar" -> IF np < MaxParties THEN {"bar"} ELSE {}
            [] kd.b = "atom" -> (IF val < MaxVal THEN {"inc", "fadd"} ELSE {}) \cup (IF val > 0 THEN {"dec", "fsub"} ELSE {}) \cup {"load", "store", "cas", "tas", "clr"}
Next == \E t \in Threads : \/ pc[t].op = "" /\ \E op \in Ops(t), b \in {0, 1} : (b = 0 \/ op = "cas") /\ Call(t, op, 1, b, 0)
                           \/ Do(t) \/ Ret(t, pc[t].op, pc[t].r, pc[t].at + pc[t].b)
Bound == val \in -3..(MaxVal + 3)
Spec == Init /\ [][Next]_vars
\* only the owner changes the depth; a critical section is left only by its owner
Excl == [][own' # own => own = -1 \/ own' = -1]_vars
=============================================================================

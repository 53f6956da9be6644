------------------------------- MODULE OnceMC -------------------------------
EXTENDS Once, TLC
CONSTANTS Kinds, MaxK, MaxRefs, MaxFail
VARIABLES own, fails
mv == <<vars, own, fails>>
Init == /\ kd \in Kinds /\ st = "none" /\ by = -1 /\ k = 0 /\ refs = 0 /\ ex = 0 /\ th = [i \in Slots |-> NoTh] /\ pc = [t \in Threads |-> Idle]
        /\ own = [t \in Threads |-> 0] /\ fails = 0
Running(t) == \E i \in Slots : th[i].s = "run" /\ th[i].by = t
\* threads 10.. are those of the slots
Driver(t) == t < 10
Ops(t) ==
  CASE kd = "once" -> {"inst"}
    [] kd = "sing" -> IF ex = 1 \/ (\E u \in Threads : pc[u].op = "exit") THEN {"inst", "alive"} ELSE {"inst", "alive"} \cup (IF t = 0 /\ \A u \in Threads : pc[u].op = "" THEN {"exit"} ELSE {})
    [] kd = "phx" -> IF \E u \in Threads : pc[u].op = "exit" THEN {} ELSE (IF k < MaxK THEN {"inst"} ELSE {}) \cup (IF t = 0 /\ \A u \in Threads : pc[u].op = "" THEN {"exit"} ELSE {})
    [] kd = "safe" -> (IF own[t] < MaxRefs THEN {"inst"} ELSE {}) \cup (IF own[t] > 0 THEN {"drop"} ELSE {}) \cup (IF t = 0 /\ ex = 0 /\ (\A u \in Threads : pc[u].op # "exit") THEN {"exit"} ELSE {})
    [] OTHER -> {}
Calls(t) ==
  /\ pc[t].op = "" /\ UNCHANGED <<own, fails>>
  /\ \/ Driver(t) /\ \E op \in Ops(t) : Call(t, op, 0, 0)
     \/ kd = "thr" /\ Driver(t) /\ \E i \in Slots : (th[i].s = "none" /\ (\A u \in Threads : pc[u].op = "new" => pc[u].a # i) /\ Call(t, "new", i, 0)) \/ (th[i].s # "none" /\ th[i].cn = 0 /\ (\A u \in Threads : pc[u].op = "join" => pc[u].a # i) /\ Call(t, "join", i, 0))
     \/ Running(t) /\ Call(t, "chk", 0, 0)
Next == \E t \in Threads :
  \/ Calls(t)
  \/ (Do(t) \/ Cb(t) \/ (\E n \in 0..MaxK : Db(t, n)) \/ New(t, -1)) /\ UNCHANGED <<own, fails>>
  \/ \E ok \in {0, 1}, n \in 0..MaxK : (ok = 0 => fails < MaxFail /\ kd # "once") /\ Ce(t, n, ok) /\ fails' = fails + 1 - ok /\ UNCHANGED own
  \/ \E i \in Slots : t = 10 + i /\ (Fb(t, i, 0) \/ Fe(t, i)) /\ UNCHANGED <<own, fails>>
  \/ \E r \in (0 - 1)..MaxK : Ret(t, pc[t].op, r, 0) /\ UNCHANGED fails /\ own' = [own EXCEPT ![t] = IF kd # "safe" THEN 0 ELSE IF pc[t].op = "inst" /\ r > 0 THEN @ + 1 ELSE IF pc[t].op = "drop" THEN @ - 1 ELSE @]
Spec == Init /\ [][Next]_mv
\* everybody who holds a pointer has a living object; nobody can run twice
Owned == kd = "safe" /\ (\E t \in Threads : own[t] > Bit(pc[t].op = "drop")) => st = "pub"
Once1 == [][\A i \in Slots : th[i].s = "end" => th'[i].s = "end"]_mv
=============================================================================

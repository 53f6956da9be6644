------------------------------- MODULE ObsMC -------------------------------
EXTENDS Obs, TLC
CONSTANTS MaxLen, Ks, Vs, Kinds
KindsSmall == {[b |-> "set", ord |-> 0], [b |-> "dict", ord |-> 1]}
KindsBig == {[b |-> x, ord |-> 0] : x \in {"set", "mset", "dict", "mdict"}} \cup {[b |-> "set", ord |-> 1], [b |-> "dict", ord |-> 1]}
Init == Init0
Ops(b) == {"clear", "add"} \cup (CASE b = "list" -> {"set", "ins", "rmat", "rm"} [] b = "set" -> {"rm"} [] b = "mset" -> {"rm", "rmall"} [] b = "dict" -> {"rm", "set"} [] b = "mdict" -> {"rm", "rmv", "rmall"})
Next ==
  \/ c = <<>> /\ own = -1 /\ kd = [b |-> "list", ord |-> 1] /\ (\A t \in Threads : stk[t] = Idle) /\ (\A x \in Ls : rep[x].st = 0) /\ \E q \in Kinds : kd # q /\ Kind(q.b, q.ord)
  \/ \E t \in Threads : \/ \E op \in Ops(kd.b), k \in Ks, v \in Vs : (Len(c) < MaxLen \/ op \notin {"add", "ins", "set"}) /\ (kd.b \in {"set", "mset"} => v = 0) /\ Call(t, op, k, v, <<>>, 0)
                        \/ \E x \in Ls : rep[x].st = 0 /\ (\A u \in Threads : stk[u].l # x) /\ Call(t, "conn", 0, 0, <<>>, x)
                        \/ \E x \in Ls : rep[x].st = 1 /\ (\A u \in Threads : stk[u].l # x) /\ Call(t, "disc", 0, 0, <<>>, x)
                        \/ own # t /\ Call(t, "lock", 0, 0, <<>>, 0)
                        \/ own = t /\ lk = 1 /\ Call(t, "unlock", 0, 0, <<>>, 0)
                        \/ own = t /\ lk = 1 /\ \E x \in Ls : rep[x].st = 0 /\ (\A u \in Threads : stk[u].l # x) /\ Call(t, "connf", 0, 0, <<>>, x)
                        \/ Do(t) \/ Fin(t) \/ Ret(t, stk[t].op, stk[t].r, stk[t].out)
                        \/ \E x \in Ls, o \in 1..3, k \in Ks, v \in Vs : (kd.b \in {"set", "mset"} => v = 0) /\ Note(t, x, o, k, v)
Spec == Init /\ [][Next]_vars
=============================================================================

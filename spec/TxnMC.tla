------------------------------- MODULE TxnMC -------------------------------
EXTENDS Txn, TLC
CONSTANTS MaxLen, Ks, Vs, Kinds
KindsAll == {[b |-> "set", ord |-> 0], [b |-> "dict", ord |-> 0], [b |-> "list", ord |-> 1]}
Init == \E q \in Kinds : kd = q /\ c = <<>> /\ own = -1 /\ lk = 0 /\ tx = -1 /\ w = <<>> /\ mod = 0 /\ can = [t \in Threads |-> 0] /\ rep = [x \in Ls |-> NoRep] /\ bud = [x \in Ls |-> 0]
  /\ stk = [t \in Threads |-> Idle] /\ en = [s \in Slots |-> <<>>] /\ dv = [s \in Slots |-> [a |-> <<>>, b |-> <<>>]]
Ops(b) == {"clear", "add"} \cup (CASE b = "list" -> {"set", "ins", "rmat"} [] b = "set" -> {"rm"} [] b = "dict" -> {"rm", "set"})
Next ==
  \E t \in Threads :
     \/ tx = t /\ stk[t].op = "" /\ \E op \in Ops(kd.b), k \in Ks, v \in Vs : (Len(w) < MaxLen \/ op \notin {"add", "ins", "set"}) /\ (kd.b = "set" => v = 0) /\ TOp(t, op, k, v, <<>>, Res(kd, w, op, k, v, <<>>).r)
     \/ stk[t].op = "" /\ tx = t /\ (TRevert(t) \/ Call(t, "commit", 0, 0, <<>>, 0) \/ Call(t, "end", 0, 0, <<>>, 0))
     \/ tx # t /\ \E x \in {0, 1} : Call(t, "start", 0, 0, <<>>, x)
     \/ tx # t /\ Call(t, "cancel", 0, 0, <<>>, 1 - t)
     \/ Call(t, "rev", 0, 0, <<>>, 1)
     \/ \E x \in Ls : \/ rep[x].st = 0 /\ (\A u \in Threads : stk[u].x # x) /\ Call(t, "conn", 0, 0, <<>>, x)
                      \/ rep[x].st = 1 /\ (\A u \in Threads : stk[u].x # x) /\ Call(t, "disc", 0, 0, <<>>, x)
                      \/ own = t /\ lk = 1 /\ rep[x].st = 0 /\ (\A u \in Threads : stk[u].x # x) /\ Call(t, "connf", 0, 0, <<>>, x)
                      \/ Note(t, x, MkDiff(rep[x].c, c))
     \/ own # t /\ Call(t, "lock", 0, 0, <<>>, 0)
     \/ own = t /\ lk = 1 /\ Call(t, "unlock", 0, 0, <<>>, 0)
     \/ Do(t) \/ Fin(t) \/ Ret(t, stk[t].op, stk[t].r, stk[t].out)
Spec == Init /\ [][Next]_vars
=============================================================================

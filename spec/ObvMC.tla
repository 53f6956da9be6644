------------------------------- MODULE ObvMC -------------------------------
EXTENDS Obv, TLC
CONSTANTS Vs, Pops
Init == \E b \in {"val", "dict", "set", "txn"}, q \in {1, 2}, p \in Pops : (b # "val" => q = 1 /\ p = 1)
          /\ kd = [b |-> b, q |-> q, pop |-> p, def |-> 1] /\ val = <<0, 0>> /\ own = -1 /\ todo = {} /\ hk = [h \in Hs |-> 0] /\ last = [h \in Hs |-> -1] /\ pc = [t \in Threads |-> Idle]
Ks == IF kd.b = "val" THEN {1} ELSE Keys
Next ==
  \E t \in Threads :
     \/ own # t /\ \E k \in Ks, v \in Vs : \/ kd.b # "txn" /\ (kd.b = "set" => v < 2) /\ Call(t, "set", k, v, 0, <<>>)
                                           \/ kd.b = "txn" /\ \E v2 \in Vs \cup {-1} : Call(t, "commit", 0, 0, 0, <<v, v2>>)
     \/ own # t /\ kd.b \in {"dict", "set"} /\ Call(t, "clear", 0, 0, 0, <<>>)
     \/ own # t /\ \E k \in Ks : Call(t, "get", k, 0, 0, <<>>) \/ Call(t, "sig", k, 0, 0, <<>>)
     \/ own # t /\ \E h \in Hs : (\A u \in Threads : pc[u].h # h) /\ \/ hk[h] = 0 /\ (\E k \in Ks : Call(t, "conn", k, 0, h, <<>>) \/ Call(t, "connq", k, 0, h, <<>>))
                                                                     \/ hk[h] # 0 /\ Call(t, "disc", 0, 0, h, <<>>)
     \/ \E h \in Hs, v \in Vs : Note(t, h, v)
     \/ Enter(t) \/ Leave(t) \/ Read(t) \/ Disc(t) \/ Ret(t, pc[t].op, pc[t].r)
Spec == Init /\ [][Next]_vars
\* a listener's values change only to the value the section installed, once per section
Once == [][\A h \in Hs : last'[h] # last[h] /\ last'[h] # -1 => own # -1 /\ last'[h] = val[hk[h]] /\ <<h, last'[h]>> \in todo /\ <<h, last'[h]>> \notin todo']_vars
\* a plain value does not report an equal one
NoEqual == [][\A h \in Hs : kd.b = "val" /\ last[h] # -1 /\ last'[h] # -1 /\ last'[h] # last[h] => ~Eq(last[h], last'[h])]_vars
=============================================================================

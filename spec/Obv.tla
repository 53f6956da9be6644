-------------------------------- MODULE Obv --------------------------------
(* Observable values: a plain observable value (key 1), or the values of the keys 1..2 derived from an observable dictionary, an observable set or a    *)
(* transactional dictionary (0: absent).  Setters, readers and listeners on several threads.                                                            *)
(* A change and its notifications are one section under the mutex: every listener attached to the key is notified once before the section ends.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Threads, Hs
VARIABLES kd,    \* [b: kind, q: values are compared by class v \div q, pop: 0 listeners get no current value, 1 they get it, 2 they get it when it differs from def, def]
          val,   \* key -> value
          own,   \* thread inside the section, -1: none
          todo,  \* notifications <<h, v>> still due in the section
          hk,    \* handler -> key it is connected to, 0: not connected
          last,  \* handler -> value received last, -1: none
          pc     \* thread -> operation
vars == <<kd, val, own, todo, hk, last, pc>>
Keys == 1..2
Idle == [op |-> "", k |-> 0, v |-> 0, h |-> 0, ls |-> <<>>, st |-> 0, r |-> 0]
Bit(p) == IF p THEN 1 ELSE 0
Eq(a, b) == a \div kd.q = b \div kd.q
Due(ks, nv) == {<<h, nv[hk[h]]>> : h \in {g \in Hs : hk[g] \in ks}}
\* keys notified by an operation, and the new values
Upd(op, k, v, ls) ==
  CASE op \in {"set", "dset"} -> [val EXCEPT ![k] = IF kd.b = "val" /\ Eq(@, v) THEN @ ELSE v]
    [] op = "rm" -> [val EXCEPT ![k] = 0]
    [] op = "clear" -> [j \in Keys |-> 0]
    [] op = "commit" -> [j \in Keys |-> IF ls[j] < 0 THEN val[j] ELSE ls[j]]
    [] OTHER -> val
Noted(op, k, v, nv) ==
  IF kd.b = "val" THEN IF op = "set" /\ ~Eq(val[k], v) THEN {k} ELSE {}
  ELSE IF kd.b = "dict" /\ op \in {"set", "dset"} THEN (IF v = 0 /\ val[k] = 0 THEN {} ELSE {k})   \* setting an equal value in a dictionary is reported as an update
  ELSE {j \in Keys : nv[j] # val[j]}
Populates(k) == kd.pop = 1 \/ (kd.pop = 2 /\ ~Eq(val[k], kd.def))
Call(t, op, k, v, h, ls) ==
  /\ pc[t].op = "" /\ pc' = [pc EXCEPT ![t] = [Idle EXCEPT !.op = op, !.k = k, !.v = v, !.h = h, !.ls = ls]]
  /\ (op \in {"conn", "connq"} => hk[h] = 0)
  /\ UNCHANGED <<kd, val, own, todo, hk, last>>
\* operations of a listener, inside the section of its own thread
Inner(t, op, k, r) == own = t /\ op \in {"get", "sig"} /\ r = (IF op = "get" \/ Populates(k) THEN val[k] ELSE -1) /\ UNCHANGED vars
Writers == {"set", "dset", "rm", "clear", "commit", "other"}
Enter(t) ==
  LET p == pc[t] nv == Upd(p.op, p.k, p.v, p.ls) IN
  /\ own = -1 /\ p.st = 0 /\ p.op \in Writers \cup {"conn", "connq"}
  /\ own' = t /\ pc' = [pc EXCEPT ![t].st = 1]
  /\ IF p.op \in Writers THEN val' = nv /\ todo' = Due(Noted(p.op, p.k, p.v, nv), nv) /\ UNCHANGED <<hk, last>>
     ELSE /\ UNCHANGED val /\ hk' = [hk EXCEPT ![p.h] = p.k] /\ last' = [last EXCEPT ![p.h] = -1]
          /\ todo' = IF p.op = "conn" /\ Populates(p.k) THEN {<<p.h, val[p.k]>>} ELSE {}
  /\ UNCHANGED kd
Note(t, h, v) == own = t /\ <<h, v>> \in todo /\ hk[h] # 0 /\ todo' = todo \ {<<h, v>>} /\ last' = [last EXCEPT ![h] = v] /\ UNCHANGED <<kd, val, own, hk, pc>>
Leave(t) == own = t /\ pc[t].st = 1 /\ (\A x \in todo : hk[x[1]] = 0) /\ own' = -1 /\ todo' = {} /\ pc' = [pc EXCEPT ![t].st = 2] /\ UNCHANGED <<kd, val, hk, last>>
Read(t) ==
  LET p == pc[t] IN
  /\ own = -1 /\ p.st = 0 /\ p.op \in {"get", "sig"}
  /\ pc' = [pc EXCEPT ![t].st = 2, ![t].r = IF p.op = "get" \/ Populates(p.k) THEN val[p.k] ELSE -1]
  /\ UNCHANGED <<kd, val, own, todo, hk, last>>
Disc(t) == pc[t].op = "disc" /\ pc[t].st = 0 /\ hk' = [hk EXCEPT ![pc[t].h] = 0] /\ pc' = [pc EXCEPT ![t].st = 2] /\ UNCHANGED <<kd, val, own, todo, last>>
Ret(t, op, r) == pc[t].op = op /\ op # "" /\ pc[t].st = 2 /\ pc[t].r = r /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<kd, val, own, todo, hk, last>>
Init0 == kd = [b |-> "", q |-> 1, pop |-> 1, def |-> 0] /\ val = <<0, 0>> /\ own = -1 /\ todo = {} /\ hk = [h \in Hs |-> 0] /\ last = [h \in Hs |-> -1] /\ pc = [t \in Threads |-> Idle]
Kind(b, q, pop, def, v) == kd' = [b |-> b, q |-> q, pop |-> pop, def |-> def] /\ val' = <<v, 0>> /\ UNCHANGED <<own, todo, hk, last, pc>>
------------------------------------------------------------------------------
\* outside the sections the last value a listener received is the current one
Fresh == own = -1 => \A h \in Hs : hk[h] # 0 /\ last[h] # -1 => last[h] = val[hk[h]]
\* a listener that was told the current value on connecting has one
Told == own = -1 /\ kd.pop = 1 => \A h \in Hs, t \in Threads : (pc[t].op = "conn" /\ pc[t].st = 2 /\ pc[t].h = h /\ hk[h] # 0) => last[h] # -1
=============================================================================

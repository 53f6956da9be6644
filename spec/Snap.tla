-------------------------------- MODULE Snap --------------------------------
(* Two collections of one kind and enumerators / reversed enumerables over them: what those yield was fixed when they were obtained. *)
EXTENDS Coll
VARIABLES kd, cs, en, rv
vars == <<kd, cs, en, rv>>
Init0 == kd = [b |-> "list", ord |-> 1] /\ cs = <<<<>>, <<>>>> /\ en = [i \in 1..3 |-> <<>>] /\ rv = [i \in 1..2 |-> <<>>]
Kind(b, ord) == kd' = [b |-> b, ord |-> ord] /\ UNCHANGED <<cs, en, rv>>
Op(i, op, k, v, ls, r) == LET x == Res(kd, cs[i], op, k, v, ls) IN r = x.r /\ cs' = [cs EXCEPT ![i] = x.c] /\ UNCHANGED <<kd, en, rv>>
En(i, how, k, s) == en' = [en EXCEPT ![s] = From(cs[i], how, k)] /\ UNCHANGED <<kd, cs, rv>>
RvOf(i, s) == rv' = [rv EXCEPT ![s] = Rev(cs[i])] /\ UNCHANGED <<kd, cs, en>>
EnRv(d, s) == en' = [en EXCEPT ![s] = rv[d]] /\ UNCHANGED <<kd, cs, rv>>
Step(s, op, r) ==
  /\ r = (IF op = "valid" THEN Bit(en[s] # <<>>) ELSE IF en[s] = <<>> THEN -1 ELSE IF op = "get" THEN en[s][1] ELSE 0)
  /\ en' = (IF op = "next" /\ en[s] # <<>> THEN [en EXCEPT ![s] = SubSeq(@, 2, Len(@))] ELSE en) /\ UNCHANGED <<kd, cs, rv>>
Copy(i, j) == cs' = [cs EXCEPT ![i] = cs[j]] /\ UNCHANGED <<kd, en, rv>>
FromEn(i, s) == cs' = [cs EXCEPT ![i] = FromSeq(kd, <<>>, en[s])] /\ en' = [en EXCEPT ![s] = <<>>] /\ UNCHANGED <<kd, rv>>
FromRv(i, s) == cs' = [cs EXCEPT ![i] = FromSeq(kd, <<>>, rv[s])] /\ UNCHANGED <<kd, en, rv>>
Dump(i, ls) == ls = cs[i] /\ UNCHANGED vars
Inv == WellFormed(kd, cs[1]) /\ WellFormed(kd, cs[2])
\* modifications never reach what has been handed out
Isolated == [][(cs' # cs /\ \A s \in 1..3 : en'[s] = en[s] \/ en'[s] = <<>>) \/ cs' = cs]_vars
=============================================================================

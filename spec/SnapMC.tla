------------------------------- MODULE SnapMC -------------------------------
EXTENDS Snap, TLC
CONSTANTS MaxLen, Ks, Vs
OpsOf(b) == {"clear", "add"} \cup (CASE b = "list" -> {"set", "ins", "rmat", "rm"} [] b = "set" -> {"rm"} [] b = "mset" -> {"rm", "rmall"} [] b = "dict" -> {"rm", "set"} [] b = "mdict" -> {"rm", "rmv", "rmall"})
Init == Init0
Next ==
  \/ cs = <<<<>>, <<>>>> /\ kd = [b |-> "list", ord |-> 1] /\ \E b \in {"list", "set", "mset", "dict", "mdict"}, o \in {0, 1} : (o = 1 => b \in {"list", "set", "dict"}) /\ Kind(b, o)
  \/ \E op \in OpsOf(kd.b), k \in Ks, v \in Vs : (Len(cs[1]) < MaxLen \/ op \notin {"add", "ins", "set"}) /\ (kd.b \in {"set", "mset"} => v = 0) /\ Op(1, op, k, v, <<>>, Res(kd, cs[1], op, k, v, <<>>).r)
  \/ \E S \in SUBSET Range(cs[1]) : LET ls == [i \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1] IN Op(1, "rmwhere", 0, 0, ls, Res(kd, cs[1], "rmwhere", 0, 0, ls).r)
  \/ \E how \in {"en", "rev"} \cup (IF kd.b = "list" THEN {} ELSE {"find", "rfind"}) \cup (IF kd.b = "mdict" THEN {"all"} ELSE {}), k \in Ks : En(1, how, k, 1)
  \/ RvOf(1, 1) \/ EnRv(1, 1)
  \/ \E op \in {"next"} : Step(1, op, IF en[1] = <<>> THEN -1 ELSE 0)
Spec == Init /\ [][Next]_vars
=============================================================================

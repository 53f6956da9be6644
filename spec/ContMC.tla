------------------------------- MODULE ContMC -------------------------------
EXTENDS Cont, TLC
CONSTANTS MaxLen, Ks, Vs, Cms
CmsQ == {1, -2}
Init == kd \in {"fmap", "omap", "oset", "vec", "bimap"} /\ cs = <<<<>>, <<>>>> /\ cm \in [1..2 -> Cms] /\ (kd \in {"vec", "bimap"} => cm = <<1, 1>>)
Do(i, op, k, v, h, h2) == LET x == Res(cs[i], cm[i], op, k, v, h, h2, <<>>) IN Len(x.c) <= MaxLen /\ Op(i, op, k, v, h, h2, <<>>, x.r, x.p, 0, x.c)
Next ==
  \/ \E i \in 1..2, k \in Ks, v \in Vs :
       \/ kd \notin {"vec", "bimap"} /\ \E op \in {"ins", "insh", "idx", "setidx", "erasek", "erasep", "eraser", "clear"}, h \in 0..Len(cs[i]), h2 \in 0..Len(cs[i]) :
            (op = "erasep" => h < Len(cs[i])) /\ h <= h2 /\ (kd = "oset" => v = 0 /\ op \notin {"idx", "setidx"}) /\ Do(i, op, k, v, h, h2)
       \/ kd = "vec" /\ v = 0 /\ \E op \in {"push", "vset", "clear"}, h \in 0..Len(cs[i]) : Do(i, op, k, v, h, 0)
       \/ kd = "bimap" /\ \E op \in {"ins", "erasek", "rerase", "clear"} : (op = "ins" => PosOf(cs[i], 1, k) = 0 /\ ~HasV(cs[i], v)) /\ Do(i, op, k, v, 0, 0)
  \/ \E i, j \in 1..2 : Copy(i, j, cs[j]) \/ Move(i, j, cs[j])
  \/ Swap(cs[2])
Spec == Init /\ [][Next]_vars
BiUnique == kd = "bimap" => \A i \in 1..2 : \A a, b \in DOMAIN cs[i] : V(cs[i][a]) = V(cs[i][b]) => a = b
=============================================================================

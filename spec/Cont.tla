-------------------------------- MODULE Cont --------------------------------
(* Containers: two instances of one kind.  Contents are sequences of codes 10 * key + value in iteration order (sets, vectors, lists: 10 * key).   *)
(* Keys are compared by class: cm = comparer of each instance, d > 0: k \div d ascending, d < 0: k \div -d descending.                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES kd, cs, cm
vars == <<kd, cs, cm>>
K(x) == x \div 10
V(x) == x % 10
Bit(p) == IF p THEN 1 ELSE 0
Cl(d, k) == IF d > 0 THEN k \div d ELSE -(k \div (-d))
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE a[1] < b[1] \/ (a[1] = b[1] /\ LexLess(Tail(a), Tail(b)))
Assoc == kd \in {"fmap", "fset", "omap", "oset", "bimap"}
Flat == kd \in {"fmap", "fset", "bimap"}
PosOf(c, d, k) == IF \E i \in DOMAIN c : Cl(d, K(c[i])) = Cl(d, k) THEN CHOOSE i \in DOMAIN c : Cl(d, K(c[i])) = Cl(d, k) ELSE 0
Low(c, d, k) == Cardinality({i \in DOMAIN c : Cl(d, K(c[i])) < Cl(d, k)})
Up(c, d, k) == Cardinality({i \in DOMAIN c : Cl(d, K(c[i])) <= Cl(d, k)})
InsAt(c, i, x) == SubSeq(c, 1, i) \o <<x>> \o SubSeq(c, i + 1, Len(c))    \* x gets index i, counted from 0
Cut(c, i, j) == SubSeq(c, 1, i) \o SubSeq(c, j + 1, Len(c))               \* without the indices i..j-1
Rev(c) == [i \in 1..Len(c) |-> c[Len(c) + 1 - i]]
\* r: result, p: index of the iterator returned (-1: none)
R(c, r, p) == [c |-> c, r |-> r, p |-> p]
Insert(c, d, h, x) ==
  LET q == PosOf(c, d, K(x)) IN IF q > 0 THEN R(c, 0, q - 1) ELSE LET at == IF Flat THEN Low(c, d, K(x)) ELSE h IN R(InsAt(c, at, x), 1, at)
RECURSIVE Fill(_, _, _)
Fill(c, d, q) == IF q = <<>> THEN c ELSE Fill(IF Assoc THEN Insert(c, d, Len(c), q[1]).c ELSE Append(c, q[1]), d, Tail(q))
HasV(c, v) == \E i \in DOMAIN c : V(c[i]) = v
PosV(c, v) == IF HasV(c, v) THEN CHOOSE i \in DOMAIN c : V(c[i]) = v ELSE 0
Res(c, d, op, k, v, h, h2, ls) ==
  LET q == PosOf(c, d, k)
      x == IF kd \in {"fmap", "omap", "bimap"} THEN 10 * k + v ELSE 10 * k IN
  CASE op \in {"ins", "empl"} -> Insert(c, d, Len(c), x)
    [] op \in {"insh", "emplh"} -> [Insert(c, d, h, x) EXCEPT !.r = 0]
    [] op = "inslist" -> R(Fill(c, d, ls), 0, -1)
    [] op = "assign" -> R(Fill(<<>>, d, ls), 0, -1)
    [] op = "idx" -> IF q > 0 THEN R(c, V(c[q]), -1) ELSE R(Insert(c, d, Len(c), 10 * k).c, 0, -1)
    [] op = "setidx" -> IF q > 0 THEN R([c EXCEPT ![q] = 10 * K(@) + v], 0, -1) ELSE R(Insert(c, d, Len(c), x).c, 0, -1)
    [] op = "at" -> R(c, IF q > 0 THEN V(c[q]) ELSE -1, -1)
    [] op = "find" -> R(c, 0, IF q > 0 THEN q - 1 ELSE Len(c))
    [] op = "count" -> R(c, Bit(q > 0), -1)
    [] op = "lb" -> R(c, 0, Low(c, d, k))
    [] op = "ub" -> R(c, 0, Up(c, d, k))
    [] op = "er" -> R(c, Up(c, d, k) - Low(c, d, k), Low(c, d, k))
    [] op = "erasek" -> IF q > 0 THEN R(Cut(c, q - 1, q), 1, -1) ELSE R(c, 0, -1)
    [] op = "erasep" -> R(Cut(c, h, h + 1), 0, h)
    [] op = "eraser" -> R(Cut(c, h, h2), 0, h)
    [] op = "size" -> R(c, Len(c), -1)
    [] op = "empty" -> R(c, Bit(c = <<>>), -1)
    [] op = "clear" -> R(<<>>, 0, -1)
    \* vectors: by index h
    [] op = "push" -> R(Append(c, x), 0, -1)
    [] op = "vat" -> R(c, IF h < Len(c) THEN K(c[h + 1]) ELSE -1, -1)
    [] op = "vset" -> IF h < Len(c) THEN R([c EXCEPT ![h + 1] = 10 * k], 0, -1) ELSE R(c, -1, -1)
    [] op = "front" -> R(c, K(c[1]), -1)
    [] op = "back" -> R(c, K(c[Len(c)]), -1)
    \* bidirectional map, from the right
    [] op = "rfind" -> R(c, IF HasV(c, v) THEN K(c[PosV(c, v)]) ELSE -1, -1)
    [] op = "rerase" -> R(IF HasV(c, v) THEN Cut(c, PosV(c, v) - 1, PosV(c, v)) ELSE c, 0, -1)
Init0 == kd = "" /\ cs = <<<<>>, <<>>>> /\ cm = <<1, 1>>
Kind(k) == kd' = k /\ UNCHANGED <<cs, cm>>
\* t = 1: the operation threw an injected exception: it had no effect
Op(i, op, k, v, h, h2, ls, r, p, t, now) ==
  /\ IF t = 1 THEN cs' = cs ELSE LET x == Res(cs[i], cm[i], op, k, v, h, h2, ls) IN x.r = r /\ x.p = p /\ cs' = [cs EXCEPT ![i] = x.c]
  /\ now = cs'[i] /\ UNCHANGED <<kd, cm>>
New(i, d, ls, now) == cs' = [cs EXCEPT ![i] = Fill(<<>>, d, ls)] /\ cm' = [cm EXCEPT ![i] = d] /\ now = cs'[i] /\ UNCHANGED kd
Copy(i, j, now) == cs' = [cs EXCEPT ![i] = cs[j]] /\ cm' = [cm EXCEPT ![i] = cm[j]] /\ now = cs'[i] /\ UNCHANGED kd
\* a copy that threw leaves the old contents or none
CopyThrew(i, now) == now \in {cs[i], <<>>} /\ cs' = [cs EXCEPT ![i] = now] /\ UNCHANGED <<kd, cm>>
Move(i, j, now) == i # j /\ cs' = [cs EXCEPT ![i] = cs[j], ![j] = <<>>] /\ cm' = [cm EXCEPT ![i] = cm[j]] /\ now = cs'[i] /\ UNCHANGED kd
Swap(now) == cs' = <<cs[2], cs[1]>> /\ cm' = <<cm[2], cm[1]>> /\ now = cs'[1] /\ UNCHANGED kd
Dump(i, rev, ls) == ls = (IF rev = 1 THEN Rev(cs[i]) ELSE cs[i]) /\ UNCHANGED vars
Eq(r) == r = Bit(cs[1] = cs[2]) /\ UNCHANGED vars
Lt(r) == r = Bit(LexLess(cs[1], cs[2])) /\ UNCHANGED vars
\* intrusive lists: an element is on at most one of them
Link(i, k) == (\A j \in 1..2, z \in 1..8 : z <= Len(cs[j]) => K(cs[j][z]) # k) /\ cs' = [cs EXCEPT ![i] = Append(@, 10 * k)] /\ UNCHANGED <<kd, cm>>
Unlink(k) == cs' = [j \in 1..2 |-> SelectSeq(cs[j], LAMBDA x : K(x) # k)] /\ UNCHANGED <<kd, cm>>
------------------------------------------------------------------------------
Unique == Assoc => \A i \in 1..2 : \A a, b \in DOMAIN cs[i] : Cl(cm[i], K(cs[i][a])) = Cl(cm[i], K(cs[i][b])) => a = b
Sorted == Flat => \A i \in 1..2 : \A a \in 1..(Len(cs[i]) - 1) : Cl(cm[i], K(cs[i][a])) < Cl(cm[i], K(cs[i][a + 1]))
\* lookups agree with each other
Agree == Assoc => \A i \in 1..2, k \in 0..3 : LET c == cs[i] d == cm[i] q == PosOf(c, d, k) IN (q > 0 <=> Res(c, d, "count", k, 0, 0, 0, <<>>).r = 1) /\ (Flat /\ q > 0 => Low(c, d, k) = q - 1 /\ Up(c, d, k) = q) /\ (Flat /\ q = 0 => Low(c, d, k) = Up(c, d, k))
=============================================================================

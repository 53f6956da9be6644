-------------------------------- MODULE Coll --------------------------------
(* Abstract lists, sets, multisets, dictionaries and multi-dictionaries.  Contents are sequences of codes 10 * key + value (sets, lists: 10 * value). *)
(* kd = [b: which kind, ord: 1 if iteration follows insertion and not the keys' order].                                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
K(x) == x \div 10
V(x) == x % 10
Bit(p) == IF p THEN 1 ELSE 0
Pos(c, k) == IF \E i \in DOMAIN c : K(c[i]) = k THEN CHOOSE i \in DOMAIN c : K(c[i]) = k /\ \A j \in 1..(i - 1) : K(c[j]) # k ELSE 0
PosX(c, x) == IF \E i \in DOMAIN c : c[i] = x THEN CHOOSE i \in DOMAIN c : c[i] = x /\ \A j \in 1..(i - 1) : c[j] # x ELSE 0
LastPos(c, k) == IF \E i \in DOMAIN c : K(c[i]) = k THEN CHOOSE i \in DOMAIN c : K(c[i]) = k /\ \A j \in (i + 1)..Len(c) : K(c[j]) # k ELSE 0
InsAt(c, i, x) == SubSeq(c, 1, i - 1) \o <<x>> \o SubSeq(c, i, Len(c))
RmAt(c, i) == SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c))
Rev(c) == [i \in 1..Len(c) |-> c[Len(c) + 1 - i]]
Range(q) == {q[i] : i \in DOMAIN q}
CountX(c, x) == Cardinality({i \in DOMAIN c : c[i] = x})
Put(kd, c, x) == IF kd.ord = 1 THEN Append(c, x) ELSE InsAt(c, Cardinality({i \in DOMAIN c : K(c[i]) <= K(x)}) + 1, x)
Keep(c, S) == SelectSeq(c, LAMBDA x : x \notin S)
KeepK(c, k) == SelectSeq(c, LAMBDA x : K(x) # k)
OnlyK(c, k) == SelectSeq(c, LAMBDA x : K(x) = k)
\* result of an operation: c: new contents, r: what it returns (-1: throws), n: number of changes made, in notifications
R(c, r, n) == [c |-> c, r |-> r, n |-> n]
Res(kd, c, op, k, v, ls) ==
  LET b == kd.b
      lst == b = "list"
      p == IF lst THEN PosX(c, 10 * v) ELSE Pos(c, k)
      x == IF lst \/ b \in {"set", "mset"} THEN 10 * (IF lst THEN v ELSE k) ELSE 10 * k + v
      ok == lst /\ k < Len(c) IN
  CASE op = "count" -> R(c, Len(c), 0)
    [] op = "empty" -> R(c, Bit(c = <<>>), 0)
    [] op = "clear" -> R(<<>>, 0, Len(c))
    [] op = "rmwhere" -> R(Keep(c, Range(ls)), Len(c) - Len(Keep(c, Range(ls))), Len(c) - Len(Keep(c, Range(ls))))
    [] op = "has" -> R(c, Bit(p > 0), 0)
    [] op = "idx" -> R(c, p - 1, 0)
    [] op = "get" -> IF lst THEN R(c, IF ok THEN c[k + 1] ELSE -1, 0) ELSE R(c, IF p > 0 THEN V(c[p]) ELSE -1, 0)
    [] op = "cnt" -> R(c, Len(OnlyK(c, k)), 0)
    [] op = "add" -> IF lst THEN R(Append(c, x), 0, 1)
                     ELSE IF b \in {"mset", "mdict"} THEN R(Put(kd, c, x), 0, 1)
                     ELSE IF p > 0 THEN R(c, 0, 0) ELSE R(Put(kd, c, x), 1, 1)
    [] op = "set" -> IF lst THEN (IF ok THEN R([c EXCEPT ![k + 1] = x], 0, 1) ELSE R(c, -1, 0))
                     ELSE R(IF p > 0 THEN [c EXCEPT ![p] = x] ELSE Put(kd, c, x), 0, 1)
    [] op = "ins" -> IF k <= Len(c) THEN R(InsAt(c, k + 1, x), 0, 1) ELSE R(c, -1, 0)
    [] op = "rmat" -> IF ok THEN R(RmAt(c, k + 1), 0, 1) ELSE R(c, -1, 0)
    [] op = "rm" -> IF p > 0 THEN R(RmAt(c, p), 1, 1) ELSE R(c, 0, 0)                       \* list: by value; set, dict: by key; multi: the first one
    [] op = "rmv" -> LET q == PosX(c, x) IN IF q > 0 THEN R(RmAt(c, q), 1, 1) ELSE R(c, 0, 0)  \* mdict: the first pair with this value
    [] op = "rmall" -> R(KeepK(c, k), Len(c) - Len(KeepK(c, k)), Len(c) - Len(KeepK(c, k)))
\* what an enumerator yields
From(c, how, k) ==
  CASE how = "en" -> c
    [] how = "rev" -> Rev(c)
    [] how = "find" -> IF Pos(c, k) = 0 THEN <<>> ELSE SubSeq(c, Pos(c, k), Len(c))
    [] how = "rfind" -> IF Pos(c, k) = 0 THEN <<>> ELSE Rev(SubSeq(c, 1, LastPos(c, k)))
    [] how = "all" -> [i \in 1..Len(OnlyK(c, k)) |-> V(OnlyK(c, k)[i])]
RECURSIVE FromSeq(_, _, _)
FromSeq(kd, c, q) == IF q = <<>> THEN c ELSE FromSeq(kd, Res(kd, c, IF kd.b = "dict" THEN "set" ELSE "add", K(q[1]), IF kd.b = "list" THEN K(q[1]) ELSE V(q[1]), <<>>).c, SubSeq(q, 2, Len(q)))
\* a listener's replica: is the notification possible, and what it makes of it.  o: 1 added, 2 updated, 3 removed
NoteOk(kd, c, o, k, v) ==
  CASE kd.b = "list" -> IF o = 1 THEN k <= Len(c) ELSE k < Len(c) /\ (IF o = 3 THEN (IF k < Len(c) THEN c[k + 1] = 10 * v ELSE FALSE) ELSE TRUE)
    [] kd.b = "set" -> o # 2 /\ (o = 1) = (Pos(c, k) = 0)
    [] kd.b = "mset" -> o # 2 /\ (o = 1 \/ Pos(c, k) > 0)
    [] kd.b = "dict" -> IF o = 1 THEN Pos(c, k) = 0 ELSE IF o = 2 THEN Pos(c, k) > 0 ELSE PosX(c, 10 * k + v) > 0
    [] kd.b = "mdict" -> o # 2 /\ (o = 1 \/ PosX(c, 10 * k + v) > 0)
Noted(kd, c, o, k, v) ==
  CASE kd.b = "list" -> IF o = 1 THEN InsAt(c, k + 1, 10 * v) ELSE IF o = 2 THEN [c EXCEPT ![k + 1] = 10 * v] ELSE RmAt(c, k + 1)
    [] kd.b \in {"set", "mset"} -> IF o = 1 THEN Put(kd, c, 10 * k) ELSE RmAt(c, Pos(c, k))
    [] kd.b = "dict" -> IF o = 1 THEN Put(kd, c, 10 * k + v) ELSE IF o = 2 THEN [c EXCEPT ![Pos(c, k)] = 10 * k + v] ELSE RmAt(c, Pos(c, k))
    [] kd.b = "mdict" -> IF o = 1 THEN Put(kd, c, 10 * k + v) ELSE RmAt(c, PosX(c, 10 * k + v))
Same(kd, a, b) == IF kd.b = "mdict" THEN Len(a) = Len(b) /\ \A x \in Range(a) : CountX(a, x) = CountX(b, x) ELSE a = b
\* representation: sorted or in insertion order, unique keys where promised
WellFormed(kd, c) == (kd.ord = 0 /\ kd.b # "list" => \A i \in 1..(Len(c) - 1) : K(c[i]) <= K(c[i + 1])) /\ (kd.b \in {"set", "dict"} => \A i, j \in DOMAIN c : K(c[i]) = K(c[j]) => i = j)
=============================================================================

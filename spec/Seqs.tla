------------------------------- MODULE Seqs -------------------------------
(* Ranges and enumerables. A program first builds an adapter out of others (a stack machine:
   sources are pushed, adapters take the topmost one or two), which denotes a finite sequence;
   then it walks cursors over the built adapter. A cursor is a position 0..Len, Len meaning
   "behind the last element". ra tells whether the adapter is random access. *)
EXTENDS Naturals, Integers, Sequences
VARIABLES stk,   \* stack of [s |-> sequence, ra |-> 0/1]
          cur    \* cursor -> position
vars == <<stk, cur>>
Exc == 0 - 1
Init0 == stk = <<>> /\ cur = [i \in {1, 2} |-> 0]
Top == stk[Len(stk)]
Und == stk[Len(stk) - 1]
S == Top.s
Ra == Top.ra
Below(n) == SubSeq(stk, 1, Len(stk) - n)
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(SubSeq(ss, 2, Len(ss)))
RECURSIVE Keep(_, _, _)
Keep(s, m, r) == IF s = <<>> THEN <<>> ELSE (IF s[1] % m = r THEN <<s[1]>> ELSE <<>>) \o Keep(SubSeq(s, 2, Len(s)), m, r)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE s[1] + Total(SubSeq(s, 2, Len(s)))
Map1(s, a) == [i \in DOMAIN s |-> (s[i] * a + 1) % 97]
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
DropN(s, n) == SubSeq(s, n + 1, Len(s))
TakeN(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Zip2(s, t) == [i \in 1..Min2(Len(s), Len(t)) |-> (s[i] * 10 + t[i]) % 97]
Cyc(s, n) == [i \in 1..n |-> s[((i - 1) % Len(s)) + 1]]
RECURSIVE Chunk(_, _)   \* sums of the fragments of size n
Chunk(s, n) == IF s = <<>> THEN <<>> ELSE <<Total(TakeN(s, n)) % 97>> \o Chunk(DropN(s, n), n)
RECURSIVE FoldF(_, _)   \* not commutative, not associative
FoldF(a, s) == IF s = <<>> THEN a ELSE FoldF((a * 3 + s[1]) % 101, DropN(s, 1))
\* --- building
Push(s, ra) == stk' = Append(stk, [s |-> s, ra |-> ra]) /\ UNCHANGED cur
Unary(s, ra) == Len(stk) >= 1 /\ stk' = Append(Below(1), [s |-> s, ra |-> ra]) /\ UNCHANGED cur
Filter(m, r) == Unary(Keep(S, m, r), 0)
Transform(a) == Unary(Map1(S, a), Ra)
Same(ra) == Unary(S, ra)                \* cast, clone, default-if-empty of a non-empty one
Reverse == Unary(Rev(S), Ra)
DropA(n) == Unary(DropN(S, n), Ra)
TakeA(n) == Unary(TakeN(S, n), Ra)
CycleTake(n) == Len(stk) >= 1 /\ S # <<>> /\ Unary(Cyc(S, n), 0)
Split(n) == Unary(Chunk(S, n), 0)
OrElse(v) == Unary(IF S = <<>> THEN <<v>> ELSE S, 0)
Binary(s) == Len(stk) >= 2 /\ stk' = Append(Below(2), [s |-> s, ra |-> 0]) /\ UNCHANGED cur
Concat == Binary(Und.s \o S)
Zip == Binary(Zip2(Und.s, S))
FlattenN(ss) == Push(Flat(ss), 0)
\* sorted difference: first the element, then 1 for added and 0 for removed
RECURSIVE Diff(_, _)
Diff(a, b) == IF a = <<>> /\ b = <<>> THEN <<>>
              ELSE IF b = <<>> THEN <<a[1] * 2>> \o Diff(DropN(a, 1), b)
              ELSE IF a = <<>> THEN <<b[1] * 2 + 1>> \o Diff(a, DropN(b, 1))
              ELSE IF a[1] < b[1] THEN <<a[1] * 2>> \o Diff(DropN(a, 1), b)
              ELSE IF b[1] < a[1] THEN <<b[1] * 2 + 1>> \o Diff(a, DropN(b, 1))
              ELSE Diff(DropN(a, 1), DropN(b, 1))
DiffA == Binary(Diff(Und.s, S))
\* --- walking: d = 0 first, 1 next, 2 last, 3 prev, 4 begin(), 5 end(), 6 copy of the other cursor
After(i, w) == CASE w = 0 -> 0 [] w = 4 -> 0
                 [] w = 1 -> cur[i] + 1
                 [] w = 2 -> IF S = <<>> THEN 0 ELSE Len(S) - 1
                 [] w = 3 -> cur[i] - 1
                 [] w = 5 -> Len(S)
                 [] OTHER -> cur[3 - i]
CanWalk(i, w) == (w = 1 => cur[i] < Len(S)) /\ (w = 3 => cur[i] > 0)
Walk(i, w) == CanWalk(i, w) /\ cur' = [cur EXCEPT ![i] = After(i, w)] /\ UNCHANGED stk
Move(i, d, r) == /\ Ra = 1
                 /\ IF cur[i] + d \in 0..Len(S) THEN r = 1 /\ cur' = [cur EXCEPT ![i] = @ + d] ELSE r = Exc /\ UNCHANGED cur
                 /\ UNCHANGED stk
\* a look at a cursor: validity, value (w = 1: nobody asks for a value behind the end), equality with the other cursor, position, size, distance
Valid(i) == IF cur[i] < Len(S) THEN 1 ELSE 0
Look(i, ok, v, w) == ok = Valid(i) /\ (IF cur[i] < Len(S) THEN v = S[cur[i] + 1] ELSE w = 1 \/ v = Exc) /\ UNCHANGED vars
Equal(r) == r = (IF cur[1] = cur[2] THEN 1 ELSE 0) /\ UNCHANGED vars
Measure(i, p, z, d) == Ra = 1 /\ p = cur[i] /\ z = Len(S) /\ d = cur[i] - cur[3 - i] /\ UNCHANGED vars
\* --- questions about the rest of the sequence; i = 0: the whole of it
Rest(i) == IF i = 0 THEN S ELSE DropN(S, cur[i])
Hits(t, m, r) == {k \in DOMAIN t : t[k] % m = r}
B(x) == IF x THEN 1 ELSE 0
Least(K) == CHOOSE k \in K : \A j \in K : k <= j
Greatest(K) == CHOOSE k \in K : \A j \in K : k >= j
Answer(q, t, a, b) ==
  CASE q = "count" -> Len(t)
    [] q = "countif" -> Len(Keep(t, a, b))
    [] q = "has" -> B(\E k \in DOMAIN t : t[k] = a)
    [] q = "hasif" -> B(Hits(t, a, b) # {})
    [] q = "idx" -> (IF \E k \in DOMAIN t : t[k] = a THEN Least({k \in DOMAIN t : t[k] = a}) - 1 ELSE Exc)
    [] q = "idxif" -> (IF Hits(t, a, b) = {} THEN Exc ELSE Least(Hits(t, a, b)) - 1)
    [] q = "any" -> B(t # <<>>)
    [] q = "all" -> B(Hits(t, a, b) = DOMAIN t)
    [] q = "none" -> B(Hits(t, a, b) = {})
    [] q = "at" -> (IF a < Len(t) THEN t[a + 1] ELSE Exc)
    [] q = "ator" -> (IF a < Len(t) THEN t[a + 1] ELSE b)
    [] q = "first" -> (IF t = <<>> THEN Exc ELSE t[1])
    [] q = "firstor" -> (IF t = <<>> THEN a ELSE t[1])
    [] q = "firstif" -> (IF Hits(t, a, b) = {} THEN Exc ELSE t[Least(Hits(t, a, b))])
    [] q = "last" -> (IF t = <<>> THEN Exc ELSE t[Len(t)])
    [] q = "lastor" -> (IF t = <<>> THEN a ELSE t[Len(t)])
    [] q = "lastif" -> (IF Hits(t, a, b) = {} THEN Exc ELSE t[Greatest(Hits(t, a, b))])
    [] q = "single" -> (IF Len(t) = 1 THEN t[1] ELSE Exc)
    [] q = "sum" -> Total(t)
    [] q = "min" -> (IF t = <<>> THEN Exc ELSE Least({t[k] : k \in DOMAIN t}))
    [] q = "max" -> (IF t = <<>> THEN Exc ELSE Greatest({t[k] : k \in DOMAIN t}))
    [] q = "fold" -> (IF t = <<>> THEN Exc ELSE FoldF(t[1], DropN(t, 1)))
    [] q = "foldi" -> FoldF(a, t)
Ask(q, i, a, b, r) == r = Answer(q, Rest(i), a, b) /\ UNCHANGED vars
List(i, s) == s = Rest(i) /\ UNCHANGED vars
Back(s) == s = Rev(S) /\ UNCHANGED vars
SameSeq(s, r) == r = B(s = S) /\ UNCHANGED vars
=============================================================================

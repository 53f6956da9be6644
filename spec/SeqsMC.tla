------------------------------- MODULE SeqsMC -------------------------------
(* The adapters' own algorithms (filter skipping, reverser with its flag before the first element,
   taker with its index, dropper, cycler, zipper, concatenation and flattening by current part)
   as cursors over cursors; every walk over every composition has to agree with the specification's
   cursor over the denoted sequence. Fixed = FALSE has the algorithms as they were before they were
   repaired (reverser moved through its source, splitter's last fragment, flattened end). *)
EXTENDS Seqs, TLC
CONSTANTS MaxLen, Vals, Depth, Fixed
VARIABLES node, built, bad
mv == <<vars, node, built, bad>>
NoSub == [k |-> "none"]
\* --- cursors: valid, get, first, next, last, prev; begin is a fresh first
RECURSIVE V(_), G(_), F(_), N(_), L(_), P(_), FwdTo(_), BackTo(_), SeekPart(_, _), SeekBack(_, _), ZLast(_, _), TLast(_)
V(x) == CASE x.k = "it" -> x.p < Len(x.s) [] x.k = "spl" -> x.p < Len(x.s)
          [] x.k = "rev" -> ~x.bb /\ V(x.in) [] x.k = "take" -> V(x.in) /\ x.i < x.n
          [] x.k = "zip" -> V(x.a) /\ V(x.b) [] x.k = "cyc" -> TRUE
          [] x.k \in {"cat", "fl"} -> x.sub.k # "none" [] OTHER -> V(x.in)
G(x) == CASE x.k = "it" -> x.s[x.p + 1]
          [] x.k = "spl" -> Total(SubSeq(x.s, x.p + 1, Min2(x.p + x.n, Len(x.s)))) % 97
          [] x.k = "trf" -> (G(x.in) * x.n + 1) % 97
          [] x.k = "zip" -> (G(x.a) * 10 + G(x.b)) % 97
          [] x.k \in {"cat", "fl"} -> G(x.sub) [] OTHER -> G(x.in)
In(x, y) == [x EXCEPT !.in = y]
FwdTo(x) == IF V(x.in) /\ G(x.in) % x.n # 1 THEN FwdTo(In(x, N(x.in))) ELSE x      \* filter: x % n = 1 is kept
BackTo(x) == IF V(x.in) /\ G(x.in) % x.n # 1
               THEN IF x.in = F(x.in) THEN In(x, N(L(x.in))) ELSE BackTo(In(x, P(x.in)))
               ELSE x
\* parts: cat has them as a sequence of cursors, fl as a sequence of sequences
NPart(x) == Len(x.parts)
Part(x, i) == IF x.k = "cat" THEN x.parts[i] ELSE [k |-> "it", s |-> x.parts[i], p |-> 0]
SeekPart(x, i) == IF i > NPart(x) THEN [x EXCEPT !.at = i, !.sub = NoSub]
                  ELSE IF V(Part(x, i)) THEN [x EXCEPT !.at = i, !.sub = Part(x, i)] ELSE SeekPart(x, i + 1)
SeekBack(x, i) == IF i < 1 THEN [x EXCEPT !.at = IF Fixed \/ x.k = "cat" \/ NPart(x) = 0 THEN NPart(x) + 1 ELSE 1, !.sub = NoSub]
                  ELSE IF V(L(Part(x, i))) THEN [x EXCEPT !.at = i, !.sub = L(Part(x, i))] ELSE SeekBack(x, i - 1)
ZLast(x, n) == IF n = 0 THEN x ELSE ZLast(N(x), n - 1)
TLast(x) == IF V(x) THEN TLast(N(x)) ELSE x
F(x) == CASE x.k \in {"it", "spl"} -> [x EXCEPT !.p = 0]
          [] x.k = "flt" -> FwdTo(In(x, F(x.in)))
          [] x.k = "rev" -> [x EXCEPT !.in = L(x.in), !.bb = FALSE]
          [] x.k = "drop" -> In(x, x.ini)
          [] x.k = "take" -> [x EXCEPT !.in = x.ini, !.i = 0]
          [] x.k = "zip" -> [x EXCEPT !.a = F(x.a), !.b = F(x.b)]
          [] x.k \in {"cat", "fl"} -> SeekPart(x, 1)
          [] OTHER -> In(x, F(x.in))
N(x) == CASE x.k = "it" -> [x EXCEPT !.p = @ + 1]
          [] x.k = "spl" -> [x EXCEPT !.p = Min2(@ + x.n, Len(x.s))]
          [] x.k = "flt" -> FwdTo(In(x, N(x.in)))
          [] x.k = "rev" -> (IF x.in # F(x.in) THEN In(x, P(x.in)) ELSE [x EXCEPT !.bb = TRUE])
          [] x.k = "take" -> [x EXCEPT !.in = N(x.in), !.i = @ + 1]
          [] x.k = "zip" -> [x EXCEPT !.a = N(x.a), !.b = N(x.b)]
          [] x.k = "cyc" -> (IF V(N(x.in)) THEN In(x, N(x.in)) ELSE In(x, F(x.in)))
          [] x.k \in {"cat", "fl"} -> (IF V(N(x.sub)) THEN [x EXCEPT !.sub = N(x.sub)] ELSE SeekPart(x, x.at + 1))
          [] OTHER -> In(x, N(x.in))
L(x) == CASE x.k = "it" -> [x EXCEPT !.p = IF x.s = <<>> THEN 0 ELSE Len(x.s) - 1]
          [] x.k = "spl" -> [x EXCEPT !.p = IF Fixed THEN (IF x.s = <<>> THEN 0 ELSE ((Len(x.s) - 1) \div x.n) * x.n) ELSE (Len(x.s) \div x.n) * x.n]
          [] x.k = "flt" -> BackTo(In(x, L(x.in)))
          [] x.k = "rev" -> [x EXCEPT !.in = F(x.in), !.bb = FALSE]
          [] x.k = "drop" -> (IF V(x.ini) THEN In(x, L(x.in)) ELSE In(x, x.ini))
          [] x.k = "take" -> (LET e == TLast(F(x)) IN IF e.i = 0 THEN e ELSE ZLast(F(x), e.i - 1))
          [] x.k = "zip" -> (LET e == TLast(F(x)) IN IF V(F(x)) THEN P(e) ELSE e)
          [] x.k \in {"cat", "fl"} -> SeekBack(x, NPart(x))
          [] OTHER -> In(x, L(x.in))
P(x) == CASE x.k = "it" -> [x EXCEPT !.p = @ - 1]
          [] x.k = "spl" -> [x EXCEPT !.p = ((@ - 1) \div x.n) * x.n]
          [] x.k = "flt" -> (LET RECURSIVE Bk(_) Bk(y) == IF V(y.in) /\ G(y.in) % y.n # 1 THEN Bk(In(y, P(y.in))) ELSE y IN Bk(In(x, P(x.in))))
          [] x.k = "rev" -> (IF x.bb THEN [x EXCEPT !.bb = FALSE] ELSE In(x, N(x.in)))
          [] x.k = "take" -> [x EXCEPT !.in = P(x.in), !.i = @ - 1]
          [] x.k = "zip" -> [x EXCEPT !.a = P(x.a), !.b = P(x.b)]
          [] x.k = "cyc" -> (IF x.in = F(x.in) THEN In(x, L(x.in)) ELSE In(x, P(x.in)))
          [] x.k \in {"cat", "fl"} -> (IF x.sub.k = "none" THEN L(x)
                                       ELSE IF x.sub # F(x.sub) THEN [x EXCEPT !.sub = P(x.sub)]
                                       ELSE SeekBack(x, x.at - 1))
          [] OTHER -> In(x, P(x.in))
End(x) == IF V(L(x)) THEN N(L(x)) ELSE L(x)
\* --- building: the machine's cursor beside the specification's stack
Sources == UNION {[1..n -> Vals] : n \in 0..MaxLen}
It(s) == [k |-> "it", s |-> s, p |-> 0]
Keep1(s, n) == Keep(s, n, 1)
Push1(s) == node = It(s) /\ stk = <<[s |-> s, ra |-> 1]>>
PushSpl(s, n) == node = [k |-> "spl", s |-> s, p |-> 0, n |-> n] /\ stk = <<[s |-> Chunk(s, n), ra |-> 0]>>
PushFl(ss) == node = SeekPart([k |-> "fl", parts |-> ss, at |-> 0, sub |-> NoSub], 1) /\ stk = <<[s |-> Flat(ss), ra |-> 0]>>
Short == UNION {[1..n -> Vals] : n \in 0..1}
Init == /\ cur = [i \in {1, 2} |-> 0] /\ built = 0 /\ bad = FALSE
        /\ \/ \E s \in Sources : Push1(s)
           \/ \E s \in Sources, n \in 1..2 : PushSpl(s, n)
           \/ \E ss \in UNION {[1..n -> Short] : n \in 0..3} : PushFl(ss)
DropIn(x, n) == LET RECURSIVE D(_, _) D(y, j) == IF j = 0 \/ ~V(y) THEN y ELSE D(N(y), j - 1) IN D(x, n)
Stage ==
  /\ built < Depth /\ built' = built + 1 /\ UNCHANGED bad
  /\ \/ \E n \in {2, 3} : Filter(n, 1) /\ node' = FwdTo([k |-> "flt", in |-> node, n |-> n])
     \/ Transform(2) /\ node' = [k |-> "trf", in |-> node, n |-> 2]
     \/ Reverse /\ node' = [k |-> "rev", in |-> L(node), bb |-> FALSE]
     \/ \E n \in {1, 2} : DropA(n) /\ node' = [k |-> "drop", in |-> DropIn(node, n), ini |-> DropIn(node, n)]
     \/ \E n \in {0, 2} : TakeA(n) /\ node' = [k |-> "take", in |-> node, ini |-> node, i |-> 0, n |-> n]
     \/ CycleTake(3) /\ LET c == [k |-> "cyc", in |-> node] IN node' = [k |-> "take", in |-> c, ini |-> c, i |-> 0, n |-> 3]
     \/ \E s \in Short : stk' = <<[s |-> Zip2(S, s), ra |-> 0]>> /\ node' = [k |-> "zip", a |-> node, b |-> It(s)] /\ UNCHANGED cur
     \/ \E s \in Short : stk' = <<[s |-> S \o s \o S, ra |-> 0]>> /\ node' = SeekPart([k |-> "cat", parts |-> <<node, It(s), node>>, at |-> 0, sub |-> NoSub], 1) /\ UNCHANGED cur
Agree(x, p) == V(x) = (p < Len(S)) /\ (V(x) => G(x) = S[p + 1])
Go(i, w) ==
  /\ built = Depth /\ i = 1 /\ CanWalk(i, w) /\ w \in 0..5
  /\ LET y == CASE w \in {0, 4} -> F(node) [] w = 1 -> N(node) [] w = 2 -> L(node) [] w = 3 -> P(node) [] OTHER -> End(node)
     IN node' = y /\ Walk(i, w) /\ bad' = (bad \/ ~Agree(y, cur'[1]))
  /\ UNCHANGED built
Finish == built < Depth /\ built' = Depth /\ bad' = (bad \/ ~Agree(node, 0)) /\ UNCHANGED <<vars, node>>
Next == Stage \/ Finish \/ \E w \in 0..5 : Go(1, w)
Spec == Init /\ [][Next]_mv
NotBad == ~bad
\* equality of cursors is equality of positions: walking to the end one by one ends where end() is
RECURSIVE Steps(_, _)
Steps(x, n) == IF n = 0 THEN x ELSE Steps(N(x), n - 1)
EndIsEnd == built = Depth /\ ~bad => Steps(F(node), Len(S)) = End(node)
=============================================================================

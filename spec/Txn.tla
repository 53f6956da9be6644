-------------------------------- MODULE Txn --------------------------------
(* A transactional collection: one open transaction with contents of its own; readers and listeners see committed contents only. *)
EXTENDS Coll
CONSTANTS Threads, Ls, Slots
VARIABLES kd, c, own, lk, tx, w, mod, can, rep, bud, stk, en, dv
vars == <<kd, c, own, lk, tx, w, mod, can, rep, bud, stk, en, dv>>
Idle == [op |-> "", k |-> 0, v |-> 0, ls |-> <<>>, x |-> 0, st |-> 0, r |-> 0, out |-> <<>>]
NoRep == [st |-> 0, c |-> <<>>]
Init0 ==
  /\ kd = [b |-> "list", ord |-> 1] /\ c = <<>> /\ own = -1 /\ lk = 0 /\ tx = -1 /\ w = <<>> /\ mod = 0 /\ can = [t \in Threads |-> 0] /\ rep = [x \in Ls |-> NoRep] /\ bud = [x \in Ls |-> 0]
  /\ stk = [t \in Threads |-> Idle] /\ en = [s \in Slots |-> <<>>] /\ dv = [s \in Slots |-> [a |-> <<>>, b |-> <<>>]]
Kind(b, ord) == kd' = [b |-> b, ord |-> ord] /\ UNCHANGED <<c, own, lk, tx, w, mod, can, rep, bud, stk, en, dv>>
\* a diff is a sequence of codes 1000 * op + 10 * key-or-index + value; op 1 added, 2 updated, 3 removed
O(d) == d \div 1000
DK(d) == (d % 1000) \div 10
DV(d) == d % 10
\* all of them applied in turn, or <<-1>> if one cannot be
RECURSIVE Applied(_, _)
Applied(a, d) == IF d = <<>> THEN a ELSE IF NoteOk(kd, a, O(d[1]), DK(d[1]), DV(d[1])) THEN Applied(Noted(kd, a, O(d[1]), DK(d[1]), DV(d[1])), SubSeq(d, 2, Len(d))) ELSE <<-1>>
Dist(a, b) == IF kd.b = "list" THEN LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN 2 * Cardinality({i \in 1..m : a[i] # b[i]}) + Len(a) + Len(b) - 2 * m
              ELSE Cardinality(Range(a) \ Range(b)) + Cardinality(Range(b) \ Range(a))
DiffOk(a, b, d) == Applied(a, d) = b /\ Len(d) <= Dist(a, b)
Call(t, op, k, v, ls, x) == stk[t].op = "" /\ stk' = [stk EXCEPT ![t] = [Idle EXCEPT !.op = op, !.k = k, !.v = v, !.ls = ls, !.x = x]] /\ UNCHANGED <<kd, c, own, lk, tx, w, mod, can, rep, bud, en, dv>>
Free(t) == own \in {-1, t}
Busy(t) == stk[t].st = 1
Done(t, r) == stk' = [stk EXCEPT ![t].st = 2, ![t].r = r]
U == UNCHANGED <<kd, w, mod, can, dv>>
Do(t) ==
  /\ stk[t].op # "" /\ stk[t].st = 0
  /\ LET p == stk[t] IN
     CASE p.op = "disc" -> rep' = [rep EXCEPT ![p.x] = NoRep] /\ bud' = [bud EXCEPT ![p.x] = 0] /\ Done(t, 0) /\ UNCHANGED <<c, own, lk, tx, en>> /\ U
       [] p.op = "unlock" -> own' = -1 /\ lk' = 0 /\ Done(t, 0) /\ UNCHANGED <<c, tx, rep, bud, en>> /\ U
       [] p.op = "cancel" -> can' = [can EXCEPT ![p.x] = 1] /\ Done(t, 0) /\ UNCHANGED <<kd, c, own, lk, tx, w, mod, rep, bud, en, dv>>
       \* x: 0 no token, 1 a token of one's own that may be cancelled, 2 with a deadline
       [] p.op = "start" -> \/ Free(t) /\ tx = -1 /\ tx' = t /\ w' = c /\ mod' = 0 /\ Done(t, 1) /\ UNCHANGED <<kd, can, c, own, lk, rep, bud, en, dv>>
                            \/ p.x = 1 /\ can[t] = 1 /\ Done(t, 0) /\ UNCHANGED <<c, own, lk, tx, rep, bud, en>> /\ U
                            \/ p.x = 2 /\ Done(t, 2) /\ UNCHANGED <<c, own, lk, tx, rep, bud, en>> /\ U
       [] p.op = "commit" /\ w = c -> tx = t /\ mod' = 0 /\ Done(t, 0) /\ UNCHANGED <<kd, w, can, dv, c, own, lk, tx, rep, bud, en>>
       [] OTHER ->
          /\ Free(t)
          /\ CASE p.op = "end" -> tx = t /\ tx' = -1 /\ w' = <<>> /\ mod' = 0 /\ Done(t, 0) /\ UNCHANGED <<kd, can, c, own, lk, rep, bud, en, dv>>
               [] p.op = "commit" -> /\ tx = t /\ c' = w /\ mod' = 0 /\ own' = t /\ bud' = [z \in Ls |-> Bit(rep[z].st > 0 /\ w # c)] /\ stk' = [stk EXCEPT ![t].st = 1] /\ UNCHANGED <<kd, w, can, dv, lk, tx, rep, en>>
               [] p.op = "lock" -> own' = t /\ lk' = 1 /\ Done(t, 0) /\ UNCHANGED <<c, tx, rep, bud, en>> /\ U
               [] p.op = "dump" -> stk' = [stk EXCEPT ![t].st = 2, ![t].out = c] /\ UNCHANGED <<c, own, lk, tx, rep, bud, en>> /\ U
               [] p.op \in {"en", "rev", "find", "rfind"} -> en' = [en EXCEPT ![p.x] = From(c, p.op, p.k)] /\ Done(t, 0) /\ UNCHANGED <<c, own, lk, tx, rep, bud>> /\ U
               [] p.op = "conn" -> own' = t /\ rep' = [rep EXCEPT ![p.x] = [st |-> 2, c |-> <<>>]] /\ bud' = [bud EXCEPT ![p.x] = Bit(c # <<>>)] /\ stk' = [stk EXCEPT ![t].st = 1] /\ UNCHANGED <<c, lk, tx, en>> /\ U
               [] p.op = "connf" -> rep' = [rep EXCEPT ![p.x] = [st |-> 1, c |-> c]] /\ Done(t, 0) /\ UNCHANGED <<c, own, lk, tx, bud, en>> /\ U
               [] OTHER -> Done(t, Res(kd, c, p.op, p.k, p.v, p.ls).r) /\ UNCHANGED <<c, own, lk, tx, rep, bud, en>> /\ U
Note(t, x, d) ==
  /\ own = t /\ Busy(t) /\ rep[x].st > 0 /\ bud[x] = 1 /\ (stk[t].op = "conn") = (rep[x].st = 2) /\ DiffOk(rep[x].c, c, d)
  /\ rep' = [rep EXCEPT ![x].c = c] /\ bud' = [bud EXCEPT ![x] = 0] /\ UNCHANGED <<kd, c, own, lk, tx, w, mod, can, stk, en, dv>>
Fin(t) ==
  /\ Busy(t) /\ \A x \in Ls : bud[x] = 0
  /\ rep' = [x \in Ls |-> IF rep[x].st = 2 THEN [rep[x] EXCEPT !.st = 1] ELSE rep[x]]
  /\ own' = (IF lk = 1 THEN own ELSE -1) /\ stk' = [stk EXCEPT ![t].st = 2] /\ UNCHANGED <<kd, c, lk, tx, w, mod, can, bud, en, dv>>
Ret(t, op, r, ls) == stk[t].op = op /\ stk[t].st = 2 /\ stk[t].r = r /\ stk[t].out = ls /\ stk' = [stk EXCEPT ![t] = Idle] /\ UNCHANGED <<kd, c, own, lk, tx, w, mod, can, rep, bud, en, dv>>
\* the transaction's owner
V1 == UNCHANGED <<kd, c, own, lk, tx, can, rep, bud, stk>>
TOp(t, op, k, v, ls, r) == tx = t /\ stk[t].op = "" /\ (LET x == Res(kd, w, op, k, v, ls) IN r = x.r /\ w' = x.c /\ mod' = (IF x.n > 0 \/ op \in {"rmwhere", "clear"} THEN 1 ELSE mod)) /\ V1 /\ UNCHANGED <<en, dv>>
TDump(t, ls) == tx = t /\ ls = w /\ UNCHANGED vars
TEn(t, how, k, s) == tx = t /\ en' = [en EXCEPT ![s] = From(w, how, k)] /\ V1 /\ UNCHANGED <<w, mod, dv>>
TDirty(t, r) == tx = t /\ (w # c => r = 1) /\ (mod = 0 => r = 0) /\ (kd.b # "list" => r = Bit(w # c)) /\ UNCHANGED vars
TDiff(t, s) == tx = t /\ dv' = [dv EXCEPT ![s] = [a |-> c, b |-> w]] /\ V1 /\ UNCHANGED <<w, mod, en>>
DEnum(s, ls) == DiffOk(dv[s].a, dv[s].b, ls) /\ UNCHANGED vars
TRevert(t) == tx = t /\ w' = c /\ mod' = 0 /\ V1 /\ UNCHANGED <<en, dv>>
\* one entry of a diff, whatever the contents: added and updated entries of dictionaries set the key
TApply(t, o, k, v, r) ==
  /\ tx = t
  /\ LET x == CASE kd.b = "list" -> Res(kd, w, IF o = 1 THEN "ins" ELSE IF o = 2 THEN "set" ELSE "rmat", k, v, <<>>)
               [] kd.b = "set" -> IF o = 2 THEN R(w, -1, 0) ELSE Res(kd, w, IF o = 1 THEN "add" ELSE "rm", k, 0, <<>>)
               [] OTHER -> Res(kd, w, IF o = 3 THEN "rm" ELSE "set", k, v, <<>>)
     IN r = Bit(x.r >= 0) /\ w' = x.c /\ mod' = (IF x.n > 0 THEN 1 ELSE mod)
  /\ V1 /\ UNCHANGED <<en, dv>>
Step(s, op, r) ==
  /\ r = (IF op = "valid" THEN Bit(en[s] # <<>>) ELSE IF en[s] = <<>> THEN -1 ELSE IF op = "get" THEN en[s][1] ELSE 0)
  /\ en' = (IF op = "next" /\ en[s] # <<>> THEN [en EXCEPT ![s] = SubSeq(@, 2, Len(@))] ELSE en) /\ UNCHANGED <<kd, c, own, lk, tx, w, mod, can, rep, bud, stk, dv>>
------------------------------------------------------------------------------
\* the difference as the library computes it
RECURSIVE ListDiff(_, _, _, _)
ListDiff(a, b, i, n) ==
  IF i >= Len(a) /\ i >= Len(b) THEN <<>>
  ELSE IF i >= Len(b) THEN <<3000 + 10 * (i - n) + K(a[i + 1])>> \o ListDiff(a, b, i + 1, n + 1)
  ELSE IF i >= Len(a) THEN <<1000 + 10 * i + K(b[i + 1])>> \o ListDiff(a, b, i + 1, n)
  ELSE (IF a[i + 1] = b[i + 1] THEN <<>> ELSE <<3000 + 10 * i + K(a[i + 1]), 1000 + 10 * i + K(b[i + 1])>>) \o ListDiff(a, b, i + 1, n)
RECURSIVE SortDiff(_, _)
SortDiff(rs, as) ==
  IF rs = <<>> THEN [i \in DOMAIN as |-> 1000 + as[i]] ELSE IF as = <<>> THEN [i \in DOMAIN rs |-> 3000 + rs[i]]
  ELSE IF K(as[1]) < K(rs[1]) THEN <<1000 + as[1]>> \o SortDiff(rs, SubSeq(as, 2, Len(as))) ELSE <<3000 + rs[1]>> \o SortDiff(SubSeq(rs, 2, Len(rs)), as)
MkDiff(a, b) == IF kd.b = "list" THEN ListDiff(a, b, 0, 0) ELSE SortDiff(Keep(a, Range(b)), Keep(b, Range(a)))
InvOne == \A t, u \in Threads : Busy(t) /\ Busy(u) => t = u
InvReplica == (\A t \in Threads : ~Busy(t)) => \A x \in Ls : rep[x].st = 1 => rep[x].c = c
InvForm == WellFormed(kd, c) /\ WellFormed(kd, w)
InvDiff == DiffOk(c, w, MkDiff(c, w)) /\ (MkDiff(c, w) = <<>> <=> c = w)
InvDirty == tx >= 0 /\ mod = 0 => w = c
\* the committed contents change only by a commit of the open transaction, and to its contents; working contents change under one owner only
Atomic == [][c' # c => tx >= 0 /\ stk[tx].op = "commit" /\ c' = w]_vars
Exclusive == [][tx' # tx => tx = -1 \/ tx' = -1]_vars
Fixed == [][\A s \in Slots : en'[s] # en[s] => (c' = c /\ w' = w)]_vars
=============================================================================

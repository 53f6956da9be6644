--------------------------------- MODULE Held ---------------------------------
(* Value holders - optional, variant (with and without an empty state), any, function: what a holder holds is what was put into it last, every held object  *)
(* is constructed and destroyed once, copies are independent (copies of a function share its functor), and an operation that throws leaves a valid holder.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES fam,   \* "opt", "var", "nev" (never empty), "any", "fun"
          h,     \* holder -> [ty, v, id]: type held (0 none, 1 int, 2 string, 3 counted class), value, object
          nid    \* objects made so far
vars == <<fam, h, nid>>
Holders == 1..3
Exc == -1
MovedFrom == -55
None == [ty |-> 0, v |-> 0, id |-> 0]
Init0 == fam = "" /\ h = [i \in Holders |-> None] /\ nid = 0
CanBeEmpty == fam \in {"opt", "var", "any"}
\* objects of the counted class that exist in state s of the holders
Live(s) == Cardinality({s[i].id : i \in {j \in Holders : s[j].ty = 3}})
Make(f, ty, v, n) == fam' = f /\ h' = [i \in Holders |-> [ty |-> ty, v |-> v, id |-> IF ty = 0 THEN 0 ELSE i]] /\ nid' = 3 /\ n = Live(h')
Put1(i, x) == h' = [h EXCEPT ![i] = x]
\* put a value into holder i; f: the n-th copy was made to throw
Set(i, ty, v, f, r, n) ==
  /\ UNCHANGED fam /\ nid' = nid + 1
  /\ CASE r = 1 -> Put1(i, [ty |-> ty, v |-> v, id |-> nid + 1])
       [] r = Exc -> f = 1 /\ ty = 3 /\ (\/ UNCHANGED h
                                         \/ CanBeEmpty /\ Put1(i, None))
       [] OTHER -> FALSE
  /\ n = Live(h')
Copy(i, j, f, r, n) ==
  /\ UNCHANGED fam /\ nid' = nid + 1
  /\ CASE r = 1 -> IF i = j THEN UNCHANGED h ELSE Put1(i, IF fam = "fun" \/ h[j].ty = 0 THEN h[j] ELSE [h[j] EXCEPT !.id = nid + 1])
       [] r = Exc -> f = 1 /\ h[j].ty = 3 /\ fam # "fun" /\ (\/ UNCHANGED h
                                                             \/ CanBeEmpty /\ i # j /\ Put1(i, None))
       [] OTHER -> FALSE
  /\ n = Live(h')
\* what a holder may be after its contents were moved away
Left(x) == {None, [x EXCEPT !.v = MovedFrom], x}
Move(i, j, n) ==
  /\ i # j /\ UNCHANGED fam /\ nid' = nid + 1
  /\ \E s \in (IF fam = "fun" THEN {None} ELSE IF fam = "nev" THEN Left(h[j]) \ {None} ELSE Left(h[j])) :
       h' = [h EXCEPT ![i] = IF h[j].ty = 0 \/ s.ty = 0 THEN h[j] ELSE [h[j] EXCEPT !.id = nid + 1], ![j] = s]
  /\ n = Live(h')
Swap(i, j, n) == h' = [h EXCEPT ![i] = h[j], ![j] = h[i]] /\ n = Live(h') /\ UNCHANGED <<fam, nid>>
Reset(i, n) == CanBeEmpty /\ Put1(i, None) /\ n = Live(h') /\ UNCHANGED <<fam, nid>>
------------------------------------------------------------------------------
Get(i, ty, r) == r = (IF h[i].ty = ty THEN h[i].v ELSE Exc) /\ UNCHANGED vars
Which(i, r) == r = h[i].ty /\ UNCHANGED vars
Empty(i, r) == r = (IF h[i].ty = 0 THEN 1 ELSE 0) /\ UNCHANGED vars
Less(a, b) == a.ty < b.ty \/ (a.ty = b.ty /\ a.ty # 0 /\ a.v < b.v)
Equal(a, b) == a.ty = b.ty /\ (a.ty = 0 \/ a.v = b.v)
Compare(i, j, eq, lt) == (eq = IF Equal(h[i], h[j]) THEN 1 ELSE 0) /\ (lt = IF Less(h[i], h[j]) THEN 1 ELSE 0) /\ UNCHANGED vars
Visit(i, ty, v) == ty = h[i].ty /\ (ty # 0 => v = h[i].v) /\ UNCHANGED vars
\* optional: v + 1 if there is a value, otherwise nothing or d
Apply(i, r) == r = (IF h[i].ty = 0 THEN Exc ELSE h[i].v + 1) /\ UNCHANGED vars
ValueOr(i, d, r) == r = (IF h[i].ty = 0 THEN d ELSE h[i].v) /\ UNCHANGED vars
Die(n) == n = 0 /\ h' = [i \in Holders |-> None] /\ UNCHANGED <<fam, nid>>
------------------------------------------------------------------------------
Apart == fam # "fun" => \A i, j \in Holders : h[i].ty # 0 /\ h[j].ty # 0 /\ h[i].id = h[j].id => i = j
NeverEmpty == fam = "nev" => \A i \in Holders : h[i].ty # 0
=============================================================================

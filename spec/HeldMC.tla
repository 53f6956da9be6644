-------------------------------- MODULE HeldMC --------------------------------
(* Holders as storage: an assignment destroys what is stored and constructs the new object in its place, a failing construction leaves the empty state. *)
(* Whatever that machine does has to be allowed by Held.                                                                                                 *)
EXTENDS Held, TLC
CONSTANTS Guard, MaxOps
VARIABLES m,     \* holder -> [ty, v, ok]: storage; ok 0: destroyed
          live, bad, ops
mv == <<vars, m, live, bad, ops>>
MNone == [ty |-> 0, v |-> 0, ok |-> 1]
HS == {1, 2}
W(ty) == IF ty = 3 THEN 1 ELSE 0
Init == \E f \in {"opt", "var", "nev", "any"} :
          /\ fam = f /\ h = [i \in Holders |-> IF f = "nev" THEN [ty |-> 1, v |-> 0, id |-> i] ELSE None] /\ nid = 3
          /\ m = [i \in Holders |-> IF f = "nev" THEN [ty |-> 1, v |-> 0, ok |-> 1] ELSE MNone] /\ live = 0 /\ bad = 0 /\ ops = 0
\* the machine puts x into i, failing: t
Stored(i, x, t) == IF t = 1 THEN (IF fam = "opt" /\ m[i].ty = 3 THEN m ELSE [m EXCEPT ![i] = MNone]) ELSE [m EXCEPT ![i] = x]
LiveOf(s) == W(s[1].ty) + W(s[2].ty) + W(s[3].ty)
Types == CASE fam = "opt" -> {3} [] fam = "nev" -> {1, 3} [] OTHER -> {1, 3}
\* the specification's next state tells the contents of storage s
Match(s) == \A i \in HS : h'[i].ty = s[i].ty /\ (s[i].ty # 0 => h'[i].v = s[i].v)
MSet == \E i \in HS, ty \in Types, v \in {1, 2}, t \in {0, 1} : (t = 1 => ty = 3 /\ fam # "nev") /\
          LET s == Stored(i, [ty |-> ty, v |-> v, ok |-> 1], t) IN m' = s /\ live' = LiveOf(s)
             /\ IF ENABLED (Set(i, ty, v, t, IF t = 1 THEN Exc ELSE 1, LiveOf(s)) /\ Match(s)) THEN Set(i, ty, v, t, IF t = 1 THEN Exc ELSE 1, LiveOf(s)) /\ Match(s) /\ bad' = bad ELSE bad' = 1 /\ UNCHANGED vars
MCopy == \E i \in HS, j \in HS, t \in {0, 1} : (t = 1 => m[j].ty = 3 /\ fam # "nev" /\ (i # j \/ fam = "opt")) /\
          LET x == IF i = j /\ ~Guard /\ fam # "opt" THEN (IF fam = "any" THEN MNone ELSE [m[j] EXCEPT !.v = -77]) ELSE m[j]
              s == Stored(i, x, t) IN m' = s /\ live' = LiveOf(s)
             /\ IF ENABLED (Copy(i, j, t, IF t = 1 THEN Exc ELSE 1, LiveOf(s)) /\ Match(s)) THEN Copy(i, j, t, IF t = 1 THEN Exc ELSE 1, LiveOf(s)) /\ Match(s) /\ bad' = bad ELSE bad' = 1 /\ UNCHANGED vars
MMove == \E i \in HS, j \in HS : i # j /\
          LET s == [m EXCEPT ![i] = m[j], ![j] = IF fam = "any" THEN MNone ELSE IF m[j].ty = 3 THEN [m[j] EXCEPT !.v = MovedFrom] ELSE m[j]] IN m' = s /\ live' = LiveOf(s)
             /\ IF ENABLED (Move(i, j, LiveOf(s)) /\ Match(s)) THEN Move(i, j, LiveOf(s)) /\ Match(s) /\ bad' = bad ELSE bad' = 1 /\ UNCHANGED vars
MReset == \E i \in HS : fam # "nev" /\ LET s == [m EXCEPT ![i] = MNone] IN m' = s /\ live' = LiveOf(s) /\ IF ENABLED (Reset(i, LiveOf(s)) /\ Match(s)) THEN Reset(i, LiveOf(s)) /\ Match(s) /\ bad' = bad ELSE bad' = 1 /\ UNCHANGED vars
Next == ops < MaxOps /\ ops' = ops + 1 /\ (MSet \/ MCopy \/ MMove \/ MReset)
Spec == Init /\ [][Next]_mv
Good == bad = 0
=============================================================================

------------------------------- MODULE Counted -------------------------------
(* Counted holders (map, set, value, counter): the first acquisition runs the acquiring action, the last release the releasing one, and nothing else runs any; *)
(* action transactions: the completed steps are undone once each, newest first, unless committed; progress of a part scaled into the whole.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES refs,  \* key -> number of acquisitions held
          vals,  \* key -> what the acquiring action made
          ser,   \* acquiring actions completed so far
          steps, \* completed, not undone steps of the transaction
          act    \* 1: the transaction is neither committed nor rolled back
vars == <<refs, vals, ser, steps, act>>
Keys == 1..3
Exc == -1
Init0 == refs = [k \in Keys |-> 0] /\ vals = [k \in Keys |-> 0] /\ ser = 0 /\ steps = <<>> /\ act = 1
cv == <<refs, vals, ser>>
tv == <<steps, act>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Held == {k \in Keys : refs[k] > 0}
RECURSIVE Listing(_)
Listing(k) == IF k > 3 THEN <<>> ELSE (IF refs[k] > 0 THEN <<<<k, vals[k]>>>> ELSE <<>>) \o Listing(k + 1)
------------------------------------------------------------------------------
\* f: the action fails; c: it was run; r: result; v: value obtained
Add(k, f, c, r, v) ==
  /\ UNCHANGED tv
  /\ IF refs[k] > 0 THEN c = 0 /\ r = 1 /\ v = vals[k] /\ refs' = [refs EXCEPT ![k] = @ + 1] /\ UNCHANGED <<vals, ser>>
     ELSE /\ c = 1
          /\ IF f = 1 THEN r = Exc /\ UNCHANGED cv
             ELSE r = 1 /\ v = ser + 1 /\ ser' = ser + 1 /\ vals' = [vals EXCEPT ![k] = v] /\ refs' = [refs EXCEPT ![k] = 1]
\* a failing release leaves the entry held once, or not held
Release(k, f, c, r, v) ==
  /\ UNCHANGED <<tv, vals, ser>>
  /\ CASE refs[k] = 0 -> c = 0 /\ r = 0 /\ UNCHANGED refs
       [] refs[k] > 1 -> c = 0 /\ r = 1 /\ refs' = [refs EXCEPT ![k] = @ - 1]
       [] OTHER -> /\ c = 1 /\ v = vals[k] /\ (r = IF f = 1 THEN Exc ELSE 1)
                   /\ \E n \in (IF f = 1 THEN {0, 1} ELSE {0}) : refs' = [refs EXCEPT ![k] = n]
Count(k, n) == n = refs[k] /\ UNCHANGED vars
List(s) == s = Listing(1) /\ UNCHANGED vars
\* s: what was released, in order
Clear(s) == s = Listing(1) /\ refs' = [k \in Keys |-> 0] /\ UNCHANGED <<vals, ser, tv>>
------------------------------------------------------------------------------
Begin == steps' = <<>> /\ act' = 1 /\ UNCHANGED cv
Exec(i, f, c, r) == UNCHANGED <<cv, act>> /\ c = act /\ IF act = 0 \/ f = 1 THEN r = Exc /\ UNCHANGED steps ELSE r = 1 /\ steps' = Append(steps, i)
Commit(r) == UNCHANGED <<cv, steps>> /\ (r = IF act = 1 THEN 1 ELSE Exc) /\ act' = 0
\* u: undone steps in order; f: the last of them failed
Undo(u, f) ==
  /\ Len(u) <= Len(steps) /\ u = SubSeq(Rev(steps), 1, Len(u))
  /\ IF f = 1 THEN u # <<>> /\ (\E d \in {0, 1} : steps' = SubSeq(steps, 1, Len(steps) - Len(u) + d)) /\ UNCHANGED act
     ELSE u = Rev(steps) /\ steps' = <<>> /\ act' = 0
Rollback(u, f, r) == UNCHANGED cv /\ IF act = 0 THEN u = <<>> /\ r = Exc /\ UNCHANGED tv ELSE (r = IF f = 1 THEN Exc ELSE 1) /\ Undo(u, f)
Destroy(u, f) == UNCHANGED cv /\ IF act = 0 THEN u = <<>> /\ UNCHANGED tv ELSE Undo(u, f)
------------------------------------------------------------------------------
Pct(c, t) == IF t = 0 THEN 0 ELSE (100 * c) \div t
\* lv: levels [i, s, n] from the innermost on: part i.. i+s-1 of n
RECURSIVE Scaled(_, _)
Scaled(p, lv) == IF lv = <<>> THEN p ELSE Scaled((lv[1].i * 100 + lv[1].s * p) \div lv[1].n, SubSeq(lv, 2, Len(lv)))
Progress(lv, c, t, p) == p = Scaled(Pct(c, t), lv) /\ p \in 0..100 /\ UNCHANGED vars
MakePart(i, s, n, ok) == (ok = IF i + s - 1 < n THEN 1 ELSE 0) /\ UNCHANGED vars
=============================================================================

------------------------------ MODULE SharedPtr ------------------------------
(* Owning pointers (shared_ptr, weak_ptr, self_count_ptr, unique_ptr) used by several threads, each thread on pointers of its own.             *)
(* A pointer's value is 0 (null) or o * 4 + k: it owns object o and points to the object itself (k = 0), to a part of it (k = 1) or nowhere (2) *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES ob, S, W, pend
\* ob[o]: [cnt: owners, nx: value of the owner the object holds itself, kind: 1 with a custom deleter, else 0, dead, self: it observes itself]; S, W: owning and weak pointers
vars == <<ob, S, W, pend>>
CONSTANT Slots
Init0 == ob = <<>> /\ S = [s \in Slots |-> 0] /\ W = [s \in Slots |-> 0] /\ pend = {}
Ow(v) == v \div 4
Nul(v) == v = 0 \/ v % 4 = 2
Cnt(v) == IF v = 0 THEN 0 ELSE ob[Ow(v)].cnt
B(x) == IF x THEN 1 ELSE 0
Add(f, v) == IF v = 0 THEN f ELSE [f EXCEPT ![Ow(v)].cnt = @ + 1]
\* ---- calls.  i: target, j: source, o: object made, k: variant
Call(t, op, i, j, o, k) ==
  /\ ~\E p \in pend : p.t = t
  /\ pend' = pend \cup {[t |-> t, op |-> op, i |-> i, j |-> j, o |-> o, k |-> k, st |-> "called", r |-> 0, rel |-> <<>>]}
  /\ (op \in {"new", "newfail"} => o = Len(ob) + 1)
  /\ ob' = IF op \in {"new", "newfail"} THEN Append(ob, [cnt |-> 0, nx |-> 0, kind |-> k, dead |-> 0, self |-> 0]) ELSE ob
  /\ UNCHANGED <<S, W>>
Step(p, S2, W2, ob2, r, rel, st) == S' = S2 /\ W' = W2 /\ ob' = ob2 /\ pend' = (pend \ {p}) \cup {[p EXCEPT !.st = st, !.r = r, !.rel = rel]}
Query(p, r) == Step(p, S, W, ob, r, <<>>, "rel")
Set(p, v, ob2, r) == Step(p, [S EXCEPT ![p.i] = v], W, ob2, r, <<S[p.i]>>, "rel")
Do(p) ==
  LET a == S[p.i]
      b == S[p.j]
      w == W[p.j] IN
  /\ p \in pend /\ p.st = "called"
  /\ CASE p.op = "new" -> Set(p, p.o * 4, Add(ob, p.o * 4), 0)
       [] p.op = "newfail" -> Step(p, S, W, IF p.k = 1 THEN Add(ob, p.o * 4) ELSE ob, -1, IF p.k = 1 THEN <<p.o * 4>> ELSE <<>>, "rel")        \* a throwing constructor makes nothing; a throwing deleter copy: the object is disposed of
       [] p.op = "copy" -> Set(p, b, Add(ob, b), 0)
       [] p.op = "cast" -> LET v == IF Nul(b) \/ b % 4 # 0 THEN 0 ELSE b IN Set(p, v, Add(ob, v), 0)
       [] p.op = "alias" -> LET v == IF b = 0 THEN 0 ELSE 4 * Ow(b) + p.k IN Set(p, v, Add(ob, v), 0)
       [] p.op = "malias" -> LET v == IF b = 0 THEN 0 ELSE 4 * Ow(b) + p.k IN Step(p, [[S EXCEPT ![p.j] = 0] EXCEPT ![p.i] = v], W, ob, 0, IF p.i = p.j THEN <<>> ELSE <<a>>, "rel")
       [] p.op = "move" -> IF p.i = p.j THEN Query(p, 0) ELSE Step(p, [S EXCEPT ![p.i] = b, ![p.j] = 0], W, ob, 0, <<a>>, "rel")
       [] p.op = "swap" -> Step(p, [S EXCEPT ![p.i] = b, ![p.j] = a], W, ob, 0, <<>>, "rel")
       [] p.op = "reset" -> Set(p, 0, ob, 0)
       [] p.op = "lock" -> IF Cnt(w) > 0 THEN Set(p, w, Add(ob, w), 1) ELSE Set(p, 0, ob, 0)
       [] p.op = "weak" -> Step(p, S, [W EXCEPT ![p.i] = b], ob, 0, <<>>, "rel")
       [] p.op = "wcopy" -> Step(p, S, [W EXCEPT ![p.i] = w], ob, 0, <<>>, "rel")
       [] p.op = "wmove" -> Step(p, S, IF p.i = p.j THEN W ELSE [W EXCEPT ![p.i] = w, ![p.j] = 0], ob, 0, <<>>, "rel")
       [] p.op = "wswap" -> Step(p, S, [W EXCEPT ![p.i] = w, ![p.j] = W[p.i]], ob, 0, <<>>, "rel")
       [] p.op = "wreset" -> Step(p, S, [W EXCEPT ![p.i] = 0], ob, 0, <<>>, "rel")
       [] p.op = "relu" -> IF Cnt(a) = 1 THEN Step(p, [S EXCEPT ![p.i] = 0], W, [ob EXCEPT ![Ow(a)].cnt = 0], 1, <<a>>, "destroy") ELSE Query(p, 0)
       [] p.op = "count" -> Query(p, Cnt(a))
       [] p.op = "unique" -> Query(p, B(Cnt(a) = 1))
       [] p.op = "wcount" -> Query(p, Cnt(W[p.i]))
       [] p.op = "expired" -> Query(p, B(Cnt(W[p.i]) = 0))
       [] p.op = "get" -> Query(p, IF Nul(a) THEN 0 ELSE a)
       [] p.op = "eq" -> Query(p, B((Nul(a) /\ Nul(b)) \/ a = b))
       [] p.op = "same" -> Query(p, B(Ow(a) = Ow(b)))
       [] p.op = "wsame" -> Query(p, B(Ow(a) = Ow(w)))
       [] p.op = "link" -> IF a # 0 /\ a % 4 = 0 THEN Step(p, S, W, [Add(ob, b) EXCEPT ![Ow(a)].nx = b], 0, <<ob[Ow(a)].nx>>, "rel") ELSE Query(p, -1)
       [] p.op = "self" -> IF a # 0 /\ a % 4 = 0 THEN Step(p, S, W, [ob EXCEPT ![Ow(a)].self = 1], 0, <<>>, "rel") ELSE Query(p, -1)
       [] p.op = "live" -> Query(p, Cardinality({x \in DOMAIN ob : ob[x].kind = 1 /\ (ob[x].cnt > 0 \/ \E s \in Slots : Ow(W[s]) = x)}))
Rel(p) == /\ p \in pend /\ p.st = "rel" /\ p.rel # <<>>
          /\ LET v == p.rel[1]
                 rest == SubSeq(p.rel, 2, Len(p.rel)) IN
             IF v = 0 THEN Step(p, S, W, ob, p.r, rest, "rel")
             ELSE IF Cnt(v) > 1 THEN Step(p, S, W, [ob EXCEPT ![Ow(v)].cnt = @ - 1], p.r, rest, "rel")
             ELSE Step(p, S, W, [ob EXCEPT ![Ow(v)].cnt = 0], p.r, p.rel, "destroy")
\* the last owner is gone: the deleter (if any) runs, the object is destroyed, then what it owned itself is released
Deleter(t, o) == \E p \in pend : p.t = t /\ p.st = "destroy" /\ Ow(p.rel[1]) = o /\ ob[o].kind = 1 /\ Step(p, S, W, ob, p.r, p.rel, "deleter")
Destroy(t, o) == \E p \in pend : /\ p.t = t /\ p.st \in {"destroy", "deleter"} /\ Ow(p.rel[1]) = o /\ p.st = (IF ob[o].kind = 1 THEN "deleter" ELSE "destroy") /\ ob[o].dead = 0
                                 /\ Step(p, S, W, [ob EXCEPT ![o].dead = 1, ![o].nx = 0], p.r, <<ob[o].nx>> \o SubSeq(p.rel, 2, Len(p.rel)), "rel")
\* from its destructor the object can no longer be locked
DLock(t, o, r) == (\E p \in pend : p.t = t) /\ ob[o].self = 1 /\ ob[o].cnt = 0 /\ ob[o].dead = 1 /\ r = 0 /\ UNCHANGED vars
Ret(t, op, r) == \E p \in pend : p.t = t /\ p.op = op /\ p.st = "rel" /\ p.rel = <<>> /\ p.r = r /\ pend' = pend \ {p} /\ UNCHANGED <<ob, S, W>>
------------------------------------------------------------------------------
RECURSIVE CountIn(_, _)
CountIn(q, o) == IF q = <<>> THEN 0 ELSE (IF Ow(q[1]) = o THEN 1 ELSE 0) + CountIn(SubSeq(q, 2, Len(q)), o)
RECURSIVE SumP(_, _)
SumP(P, o) == IF P = {} THEN 0 ELSE LET p == CHOOSE x \in P : TRUE IN (IF p.st = "rel" THEN CountIn(p.rel, o) ELSE IF p.st \in {"destroy", "deleter"} THEN CountIn(SubSeq(p.rel, 2, Len(p.rel)), o) ELSE 0) + SumP(P \ {p}, o)
Owners(o) == Cardinality({s \in Slots : Ow(S[s]) = o}) + Cardinality({x \in DOMAIN ob : Ow(ob[x].nx) = o}) + SumP(pend, o)
\* the count is the number of owners; an object with an owner is alive; nobody destroys it while or twice
InvCount == \A o \in DOMAIN ob : ob[o].cnt = Owners(o)
InvAlive == \A o \in DOMAIN ob : ob[o].dead = 1 => ob[o].cnt = 0
InvOneDestroyer == \A o \in DOMAIN ob : Cardinality({p \in pend : p.st \in {"destroy", "deleter"} /\ Ow(p.rel[1]) = o}) <= (IF ob[o].cnt = 0 /\ ob[o].dead = 0 THEN 1 ELSE 0)
NoResurrection == [][\A o \in DOMAIN ob : (ob[o].dead = 1 => ob'[o].dead = 1 /\ ob'[o].cnt = 0) /\ ((ob[o].cnt = 0 /\ \E p \in pend : p.st \in {"destroy", "deleter"} /\ Ow(p.rel[1]) = o) => ob'[o].cnt = 0)]_vars
=============================================================================

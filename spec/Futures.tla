------------------------------ MODULE Futures ------------------------------
(* Promises and futures: handles referring to result cells; a cell is written once.  Handles are used by one thread at a time *)
(* (setting through one promise by several threads is allowed), cells are shared.                                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES
  jit,
  cell,     \* cell -> 0 unset, v > 0 value, v < 0 exception (BROKEN: the promise was destroyed)
  prom,     \* promise -> [c, got]: its cell, whether its future was retrieved; c = 0: destroyed
  fut,      \* future or shared future handle -> cell (0: invalid)
  canc, mayc,  \* tokens certainly / possibly cancelled
  pend,     \* calls in progress [t, op, h, v, st, dl, from, u0]
  last      \* history: last result delivered [c, r]
vars == <<jit, cell, prom, fut, canc, mayc, pend, last>>
BROKEN == -1000
InitWith(j) == jit = j /\ cell = <<>> /\ prom = <<>> /\ fut = <<>> /\ canc = {} /\ mayc = {} /\ pend = {} /\ last = [c |-> 0, r |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Free(t) == ~\E p \in pend : p.t = t
Put(f, k, v) == (k :> v) @@ f
NewPromise(p) == p \notin DOMAIN prom /\ cell' = Append(cell, 0) /\ prom' = Put(prom, p, [c |-> Len(cell) + 1, got |-> 0]) /\ UNCHANGED <<jit, fut, canc, mayc, pend, last>>
\* handle operations (one thread at a time per handle: atomic)
GetFuture(p, f, r) == /\ r = (IF prom[p].got = 1 THEN "retrieved" ELSE "ok")
                      /\ IF prom[p].got = 1 THEN UNCHANGED <<prom, fut>> ELSE prom' = [prom EXCEPT ![p].got = 1] /\ fut' = Put(fut, f, prom[p].c)
                      /\ UNCHANGED <<jit, cell, canc, mayc, pend, last>>
Swap(p, q) == prom' = [prom EXCEPT ![p] = prom[q], ![q] = prom[p]] /\ UNCHANGED <<jit, cell, fut, canc, mayc, pend, last>>
Share(f, s) == fut' = Put([fut EXCEPT ![f] = 0], s, fut[f]) /\ UNCHANGED <<jit, cell, prom, canc, mayc, pend, last>>
CopyShared(s, s2) == fut' = Put(fut, s2, fut[s]) /\ UNCHANGED <<jit, cell, prom, canc, mayc, pend, last>>
SwapShared(s, s2) == fut' = [fut EXCEPT ![s] = fut[s2], ![s2] = fut[s]] /\ UNCHANGED <<jit, cell, prom, canc, mayc, pend, last>>
Valid(f, r) == r = (IF fut[f] # 0 THEN 1 ELSE 0) /\ UNCHANGED vars
Query(f, op, r) == /\ r = (IF fut[f] = 0 THEN -1 ELSE LET v == cell[fut[f]] IN
                           IF (op = "ready" /\ v # 0) \/ (op = "value" /\ v > 0) \/ (op = "exception" /\ v < 0) THEN 1 ELSE 0) /\ UNCHANGED vars
\* writing the cell
P(t, op, h, c, v, dl, tok, n) == [t |-> t, op |-> op, h |-> h, c |-> c, v |-> v, st |-> "called", dl |-> dl, tok |-> tok, from |-> n, u0 |-> IF c = 0 THEN 0 ELSE IF cell[c] = 0 THEN 1 ELSE 0]
CallSet(t, p, v) == Free(t) /\ prom[p].c # 0 /\ pend' = pend \cup {P(t, "set", p, prom[p].c, v, -1, 0, 0)} /\ UNCHANGED <<jit, cell, prom, fut, canc, mayc, last>>
LinSet(p) == /\ p \in pend /\ p.op \in {"set", "destroy"} /\ p.st = "called"
             /\ cell' = (IF cell[p.c] = 0 THEN [cell EXCEPT ![p.c] = p.v] ELSE cell)
             \* a second value is refused; a second exception (and the broken-promise one) is ignored
             /\ pend' = (pend \ {p}) \cup {[p EXCEPT !.st = IF cell[p.c] # 0 /\ p.v > 0 THEN "already" ELSE "ok"]} /\ UNCHANGED <<jit, prom, fut, canc, mayc, last>>
RetSet(t, r) == \E p \in pend : p.t = t /\ p.op = "set" /\ p.st = r /\ pend' = pend \ {p} /\ UNCHANGED <<jit, cell, prom, fut, canc, mayc, last>>
CallDestroy(t, p) == Free(t) /\ prom[p].c # 0 /\ pend' = pend \cup {P(t, "destroy", p, prom[p].c, BROKEN, -1, 0, 0)} /\ prom' = [prom EXCEPT ![p].c = 0] /\ UNCHANGED <<jit, cell, fut, canc, mayc, last>>
RetDestroy(t) == \E p \in pend : p.t = t /\ p.op = "destroy" /\ p.st = "ok" /\ pend' = pend \ {p} /\ UNCHANGED <<jit, cell, prom, fut, canc, mayc, last>>
\* reading: Get of a future consumes the handle, of a shared future does not
CallGet(t, f, shared) == /\ Free(t) /\ pend' = pend \cup {P(t, "get", f, fut[f], 0, -1, 0, 0)}
                         /\ fut' = (IF shared = 0 THEN [fut EXCEPT ![f] = 0] ELSE fut) /\ UNCHANGED <<jit, cell, prom, canc, mayc, last>>
\* r = 0: the "no result assigned" error
RetGet(t, r) == \E p \in pend : /\ p.t = t /\ p.op = "get" /\ pend' = pend \ {p}
                                /\ (IF p.c = 0 THEN r = 0 ELSE cell[p.c] # 0 /\ r = cell[p.c]) /\ last' = [c |-> p.c, r |-> r]
                                /\ UNCHANGED <<jit, cell, prom, fut, canc, mayc>>
CallWait(t, f, dl, tok, n) == Free(t) /\ pend' = pend \cup {P(t, "wait", f, fut[f], 0, dl, tok, n)} /\ UNCHANGED <<jit, cell, prom, fut, canc, mayc, last>>
RetWait(t, r, n) == \E p \in pend : /\ p.t = t /\ p.op = "wait" /\ pend' = pend \ {p}
                                    /\ (CASE r = "invalid" -> p.c = 0
                                          [] r = "ready" -> p.c # 0 /\ cell[p.c] # 0
                                          [] r = "timeout" -> p.u0 = 1 /\ p.dl >= 0 /\ n >= p.dl /\ (jit = 0 => n = Max(p.dl, p.from))
                                          [] r = "cancelled" -> p.u0 = 1 /\ p.tok \in mayc)
                                    /\ UNCHANGED <<jit, cell, prom, fut, canc, mayc, last>>
CallCancel(x) == mayc' = mayc \cup {x} /\ UNCHANGED <<jit, cell, prom, fut, canc, pend, last>>
RetCancel(x) == canc' = canc \cup {x} /\ UNCHANGED <<jit, cell, prom, fut, mayc, pend, last>>
\* time passes: nobody waits for a result that is there, or beyond its deadline or cancellation
Idle(n) == /\ \A p \in pend : /\ (p.op \in {"get", "wait"} => p.c # 0 /\ cell[p.c] = 0)
                              /\ (p.op = "wait" => ~(p.dl >= 0 /\ p.dl <= n) /\ p.tok \notin canc)
           /\ UNCHANGED vars
------------------------------------------------------------------------------
WriteOnce == [][\A c \in 1..Len(cell) : cell[c] # 0 => cell'[c] = cell[c]]_vars
DeliveredIsTheResult == last.c # 0 => cell[last.c] = last.r
\* a cell whose promise is gone has a result
NeverForgotten == \A c \in 1..Len(cell) : cell[c] = 0 => (\E p \in DOMAIN prom : prom[p].c = c) \/ (\E q \in pend : q.op = "destroy" /\ q.c = c)
OneFuturePerPromise == \A p \in DOMAIN prom : (prom[p].c # 0 /\ prom[p].got = 0) => ~\E f \in DOMAIN fut : fut[f] = prom[p].c
=============================================================================

------------------------------- MODULE Tokens -------------------------------
(* Tokens and what holds them.  An object (token) has holders; when the last one lets go its action (if any) runs, then what it holds itself is *)
(* released.  Actions may use tokens, pools, maps and holders again.  Every thread has a stack: operations, releases in progress, actions.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Slots, Threads, Keys
VARIABLES ob, H, pool, map, cell, stk
\* ob[o]: [cnt, ev: has an action, ch: objects it holds, in the order they are released, ran: times the action ran]
\* H: token slots; pool[i]: sequence of tokens; map[m][k]: tokens under key k; cell[c]: [refs, v] shared holders
vars == <<ob, H, pool, map, cell, stk>>
Init0 == ob = <<>> /\ H = [s \in Slots |-> 0] /\ pool = [i \in 1..3 |-> <<>>] /\ map = [m \in 1..2 |-> [k \in Keys |-> <<>>]] /\ cell = [c \in 1..2 |-> [refs |-> 0, v |-> 0]] /\ stk = [t \in Threads |-> <<>>]
Top(t) == stk[t][Len(stk[t])]
Below(t) == SubSeq(stk[t], 1, Len(stk[t]) - 1)
OpF(op, i, j, k, o, ls) == [f |-> "op", op |-> op, i |-> i, j |-> j, k |-> k, st |-> 0, r |-> 0, o |-> o, ls |-> ls, any |-> 0]
RelF(ls, any) == [f |-> "rel", op |-> "", i |-> 0, j |-> 0, k |-> 0, st |-> 0, r |-> 0, o |-> 0, ls |-> ls, any |-> any]
ActF(o) == [f |-> "act", op |-> "", i |-> 0, j |-> 0, k |-> 0, st |-> 0, r |-> 0, o |-> o, ls |-> <<>>, any |-> 0]
B(x) == IF x THEN 1 ELSE 0
Add(f, o) == IF o = 0 THEN f ELSE [f EXCEPT ![o].cnt = @ + 1]
RECURSIVE AddAll(_, _)
AddAll(f, q) == IF q = <<>> THEN f ELSE AddAll(Add(f, q[1]), SubSeq(q, 2, Len(q)))
Call(t, op, i, j, k, o, ls) ==
  /\ IF stk[t] = <<>> THEN TRUE ELSE Top(t).f = "act" /\ Top(t).st = 1
  /\ o = 0 \/ o = Len(ob) + 1
  /\ ob' = IF o = 0 THEN ob ELSE Append(ob, [cnt |-> 0, ev |-> 0, ch |-> <<>>, ran |-> 0])
  /\ stk' = [stk EXCEPT ![t] = Append(@, OpF(op, i, j, k, o, ls))] /\ UNCHANGED <<H, pool, map, cell>>
\* an operation takes effect: r is its result, drop what it lets go
Fin(t, r, drop, any) == stk' = [stk EXCEPT ![t] = Append(Append(Below(t), [Top(t) EXCEPT !.st = 1, !.r = r]), RelF(drop, any))]
Rev(q) == [x \in 1..Len(q) |-> q[Len(q) + 1 - x]]
RECURSIVE Vals(_)
Vals(q) == IF q = <<>> THEN <<>> ELSE <<H[q[1]]>> \o Vals(SubSeq(q, 2, Len(q)))
RECURSIVE AllOf(_, _)
AllOf(m, ks) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE x \in ks : TRUE IN map[m][k] \o AllOf(m, ks \ {k})
New(o, ev, ch, f) == [f EXCEPT ![o] = [cnt |-> 1, ev |-> ev, ch |-> ch, ran |-> 0]]
Do(t) ==
  /\ stk[t] # <<>> /\ Top(t).f = "op" /\ Top(t).st = 0
  /\ LET p == Top(t)
         a == H[p.i]
         b == H[p.j] IN
     CASE p.op = "make" -> H' = [H EXCEPT ![p.i] = p.o] /\ ob' = New(p.o, 1, IF p.k = 1 THEN <<b>> ELSE <<>>, IF p.k = 1 THEN Add(ob, b) ELSE ob) /\ Fin(t, 0, <<a>>, 0) /\ UNCHANGED <<pool, map, cell>>   \* k = 1: the action's functor holds a token
       [] p.op = "wrap" -> H' = [H EXCEPT ![p.i] = p.o] /\ ob' = New(p.o, 0, <<b>>, Add(ob, b)) /\ Fin(t, 0, <<a>>, 0) /\ UNCHANGED <<pool, map, cell>>
       [] p.op = "multi" -> \* the last p.j of the tokens are moved in
            LET q == Vals(p.ls)
                mv == {p.ls[x] : x \in {y \in DOMAIN p.ls : y > Len(p.ls) - p.j}}
                H1 == [s \in Slots |-> IF s \in mv THEN 0 ELSE H[s]] IN
            /\ H' = [H1 EXCEPT ![p.i] = p.o] /\ ob' = New(p.o, 0, IF p.k = 1 THEN q ELSE Rev(q), AddAll(ob, SubSeq(q, 1, Len(q) - p.j)))
            /\ Fin(t, 0, <<H1[p.i]>>, 0) /\ UNCHANGED <<pool, map, cell>>
       [] p.op = "attach" -> H' = [H EXCEPT ![p.i] = p.o] /\ ob' = New(p.o, 0, <<b, a>>, Add(ob, b)) /\ Fin(t, 0, <<>>, 0) /\ UNCHANGED <<pool, map, cell>>      \* the token goes first, then the object
       [] p.op = "copy" -> H' = [H EXCEPT ![p.i] = b] /\ ob' = Add(ob, b) /\ Fin(t, 0, <<a>>, 0) /\ UNCHANGED <<pool, map, cell>>
       [] p.op = "move" -> H' = (IF p.i = p.j THEN H ELSE [H EXCEPT ![p.i] = b, ![p.j] = 0]) /\ Fin(t, 0, IF p.i = p.j THEN <<>> ELSE <<a>>, 0) /\ UNCHANGED <<ob, pool, map, cell>>
       [] p.op = "reset" -> H' = [H EXCEPT ![p.i] = 0] /\ Fin(t, 0, <<a>>, 0) /\ UNCHANGED <<ob, pool, map, cell>>
       [] p.op = "init" -> Fin(t, B(a # 0), <<>>, 0) /\ UNCHANGED <<ob, H, pool, map, cell>>
       [] p.op = "padd" -> pool' = [pool EXCEPT ![p.i] = Append(@, b)] /\ ob' = Add(ob, b) /\ Fin(t, 0, <<>>, 0) /\ UNCHANGED <<H, map, cell>>
       [] p.op = "paddm" -> pool' = [pool EXCEPT ![p.i] = Append(@, b)] /\ H' = [H EXCEPT ![p.j] = 0] /\ Fin(t, 0, <<>>, 0) /\ UNCHANGED <<ob, map, cell>>
       [] p.op = "prel" -> pool' = [pool EXCEPT ![p.i] = <<>>] /\ Fin(t, 0, pool[p.i], 1) /\ UNCHANGED <<ob, H, map, cell>>
       [] p.op = "pempty" -> Fin(t, B(pool[p.i] = <<>>), <<>>, 0) /\ UNCHANGED <<ob, H, pool, map, cell>>
       [] p.op = "madd" -> map' = [map EXCEPT ![p.i][p.k] = Append(@, b)] /\ ob' = Add(ob, b) /\ Fin(t, 0, <<>>, 0) /\ UNCHANGED <<H, pool, cell>>
       [] p.op = "maddm" -> map' = [map EXCEPT ![p.i][p.k] = Append(@, b)] /\ H' = [H EXCEPT ![p.j] = 0] /\ Fin(t, 0, <<>>, 0) /\ UNCHANGED <<ob, pool, cell>>
       [] p.op = "mrel" -> map' = [map EXCEPT ![p.i][p.k] = <<>>] /\ Fin(t, 0, map[p.i][p.k], 1) /\ UNCHANGED <<ob, H, pool, cell>>
       [] p.op = "mall" -> map' = [map EXCEPT ![p.i] = [k \in Keys |-> <<>>]] /\ Fin(t, 0, AllOf(p.i, Keys), 1) /\ UNCHANGED <<ob, H, pool, cell>>
       [] p.op = "mhas" -> Fin(t, B(map[p.i][p.k] # <<>>), <<>>, 0) /\ UNCHANGED <<ob, H, pool, map, cell>>
       \* a shared holder of a handle (o): setting or clearing it cleans the previous handle up, releasing gives it away
       [] p.op = "hset" -> IF cell[p.i].refs = 0 THEN FALSE ELSE cell' = [cell EXCEPT ![p.i].v = p.o] /\ ob' = New(p.o, 1, <<>>, ob) /\ Fin(t, 0, <<cell[p.i].v>>, 0) /\ UNCHANGED <<H, pool, map>>
       [] p.op = "hclear" -> cell' = [cell EXCEPT ![p.i].v = 0] /\ Fin(t, 0, <<cell[p.i].v>>, 0) /\ UNCHANGED <<ob, H, pool, map>>
       [] p.op = "hgive" -> cell' = [cell EXCEPT ![p.i].v = 0] /\ Fin(t, cell[p.i].v, <<>>, 0) /\ ob' = (IF cell[p.i].v = 0 THEN ob ELSE [ob EXCEPT ![cell[p.i].v].cnt = 0]) /\ UNCHANGED <<H, pool, map>>
       [] p.op = "hget" -> Fin(t, cell[p.i].v, <<>>, 0) /\ UNCHANGED <<ob, H, pool, map, cell>>
       [] p.op = "hcopy" -> cell' = [cell EXCEPT ![p.i].refs = @ + 1] /\ Fin(t, 0, <<>>, 0) /\ UNCHANGED <<ob, H, pool, map>>
       [] p.op = "hdrop" -> IF cell[p.i].refs = 1 THEN cell' = [cell EXCEPT ![p.i] = [refs |-> 0, v |-> 0]] /\ Fin(t, 0, <<cell[p.i].v>>, 0) /\ UNCHANGED <<ob, H, pool, map>>
                            ELSE cell' = [cell EXCEPT ![p.i].refs = @ - 1] /\ Fin(t, 0, <<>>, 0) /\ UNCHANGED <<ob, H, pool, map>>
       \* an action at the end of a scope, unless cancelled
       [] p.op = "scope" -> ob' = (IF p.k = 1 THEN ob ELSE New(p.o, 1, <<>>, ob)) /\ Fin(t, 0, IF p.k = 1 THEN <<>> ELSE <<p.o>>, 0) /\ UNCHANGED <<H, pool, map, cell>>
       \* garbage collection: exactly the objects nobody else holds go
       [] p.op = "gc" -> stk' = [stk EXCEPT ![t] = Append(Append(Below(t), [Top(t) EXCEPT !.st = 1]), [RelF(<<>>, 0) EXCEPT !.f = "gc", !.i = p.i, !.j = 1])] /\ UNCHANGED <<ob, H, pool, map, cell>>
Gc(t) ==
  /\ stk[t] # <<>> /\ Top(t).f = "gc" /\ UNCHANGED <<ob, H, map, cell>>
  /\ LET q == pool[Top(t).i]
         j == Top(t).j IN
     IF j > Len(q) THEN stk' = [stk EXCEPT ![t] = Below(t)] /\ UNCHANGED pool
     ELSE IF q[j] # 0 /\ ob[q[j]].cnt > 1 THEN stk' = [stk EXCEPT ![t] = Append(Below(t), [Top(t) EXCEPT !.j = j + 1])] /\ UNCHANGED pool
     ELSE pool' = [pool EXCEPT ![Top(t).i] = SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))] /\ stk' = [stk EXCEPT ![t] = Append(@, RelF(<<q[j]>>, 0))]
Rel(t) ==
  /\ stk[t] # <<>> /\ Top(t).f = "rel" /\ UNCHANGED <<H, pool, map, cell>>
  /\ IF Top(t).ls = <<>> THEN stk' = [stk EXCEPT ![t] = Below(t)] /\ UNCHANGED ob
     ELSE \E x \in (IF Top(t).any = 1 THEN DOMAIN Top(t).ls ELSE {1}) :
          LET q == Top(t).ls
              o == q[x]
              rest == Append(Below(t), [Top(t) EXCEPT !.ls = SubSeq(q, 1, x - 1) \o SubSeq(q, x + 1, Len(q))]) IN
          IF o = 0 THEN stk' = [stk EXCEPT ![t] = rest] /\ UNCHANGED ob
          ELSE /\ ob' = [ob EXCEPT ![o].cnt = @ - 1]
               /\ stk' = [stk EXCEPT ![t] = IF ob[o].cnt > 1 THEN rest ELSE Append(rest, IF ob[o].ev = 1 THEN ActF(o) ELSE RelF(ob[o].ch, 0))]
Begin(t, o) == stk[t] # <<>> /\ Top(t).f = "act" /\ Top(t).st = 0 /\ Top(t).o = o /\ ob' = [ob EXCEPT ![o].ran = @ + 1]
               /\ stk' = [stk EXCEPT ![t] = Append(Below(t), [Top(t) EXCEPT !.st = 1])] /\ UNCHANGED <<H, pool, map, cell>>
End(t, o) == stk[t] # <<>> /\ Top(t).f = "act" /\ Top(t).st = 1 /\ Top(t).o = o /\ stk' = [stk EXCEPT ![t] = Append(Below(t), RelF(ob[o].ch, 0))] /\ UNCHANGED <<ob, H, pool, map, cell>>
Ret(t, op, r) == stk[t] # <<>> /\ Top(t).f = "op" /\ Top(t).op = op /\ Top(t).st = 1 /\ Top(t).r = r /\ stk' = [stk EXCEPT ![t] = Below(t)] /\ UNCHANGED <<ob, H, pool, map, cell>>
------------------------------------------------------------------------------
RECURSIVE CountIn(_, _)
CountIn(q, o) == IF q = <<>> THEN 0 ELSE (IF q[1] = o THEN 1 ELSE 0) + CountIn(SubSeq(q, 2, Len(q)), o)
RECURSIVE SumOver(_, _)
SumOver(q, o) == IF q = <<>> THEN 0 ELSE CountIn(q[1], o) + SumOver(SubSeq(q, 2, Len(q)), o)
InFrames(t, o) == SumOver([x \in DOMAIN stk[t] |-> IF stk[t][x].f = "rel" THEN stk[t][x].ls ELSE <<>>], o)
RECURSIVE SumT(_, _)
SumT(T, o) == IF T = {} THEN 0 ELSE LET t == CHOOSE x \in T : TRUE IN InFrames(t, o) + SumT(T \ {t}, o)
Acting(o) == \E t \in Threads : \E x \in DOMAIN stk[t] : stk[t][x].f = "act" /\ stk[t][x].o = o
Holds(x) == ob[x].cnt > 0 \/ Acting(x)
Held(o) == Cardinality({s \in Slots : H[s] = o}) + CountIn(pool[1], o) + CountIn(pool[2], o) + CountIn(pool[3], o) + CountIn(AllOf(1, Keys), o) + CountIn(AllOf(2, Keys), o)
           + B(cell[1].v = o) + B(cell[2].v = o) + SumOver([x \in DOMAIN ob |-> IF Holds(x) THEN ob[x].ch ELSE <<>>], o) + SumT(Threads, o)
\* (cells 1 and 2 never share a handle)
InvHeld == \A o \in DOMAIN ob : ob[o].cnt = Held(o)
InvOnce == \A o \in DOMAIN ob : ob[o].ran <= 1
InvNotEarly == \A o \in DOMAIN ob : ob[o].ran = 1 => ob[o].cnt = 0
=============================================================================

-------------------------------- MODULE Obs --------------------------------
(* An observable collection: operations take effect one at a time and notify the connected listeners before anything else happens to the collection. *)
(* rep[l]: what listener l has made of its notifications; bud[l]: notifications it still has to get for the operation in progress.                   *)
EXTENDS Coll
CONSTANTS Threads, Ls
VARIABLES kd, c, own, lk, rep, bud, stk
vars == <<kd, c, own, lk, rep, bud, stk>>
Idle == [op |-> "", k |-> 0, v |-> 0, ls |-> <<>>, l |-> 0, st |-> 0, r |-> 0, out |-> <<>>, same |-> 0]
Init0 == kd = [b |-> "list", ord |-> 1] /\ c = <<>> /\ own = -1 /\ lk = 0 /\ rep = [x \in Ls |-> [st |-> 0, c |-> <<>>]] /\ bud = [x \in Ls |-> 0] /\ stk = [t \in Threads |-> Idle]
Kind(b, ord) == kd' = [b |-> b, ord |-> ord] /\ UNCHANGED <<c, own, lk, rep, bud, stk>>
Call(t, op, k, v, ls, x) == stk[t].op = "" /\ stk' = [stk EXCEPT ![t] = [Idle EXCEPT !.op = op, !.k = k, !.v = v, !.ls = ls, !.l = x]] /\ UNCHANGED <<kd, c, own, lk, rep, bud>>
Free(t) == own \in {-1, t}
Busy(t) == stk[t].st = 1
Do(t) ==
  /\ stk[t].op # "" /\ stk[t].st = 0 /\ UNCHANGED kd
  /\ LET p == stk[t] IN
     IF p.op = "disc" THEN rep' = [rep EXCEPT ![p.l] = [st |-> 0, c |-> <<>>]] /\ bud' = [bud EXCEPT ![p.l] = 0] /\ stk' = [stk EXCEPT ![t].st = 2] /\ UNCHANGED <<c, own, lk>>
     ELSE IF p.op = "unlock" THEN own' = -1 /\ lk' = 0 /\ stk' = [stk EXCEPT ![t].st = 2] /\ UNCHANGED <<c, rep, bud>>
     ELSE /\ Free(t)
          /\ CASE p.op = "lock" -> own' = t /\ lk' = 1 /\ stk' = [stk EXCEPT ![t].st = 2] /\ UNCHANGED <<c, rep, bud>>
               [] p.op = "dump" -> stk' = [stk EXCEPT ![t].st = 2, ![t].out = c] /\ UNCHANGED <<c, own, lk, rep, bud>>
               [] p.op = "conn" -> own' = t /\ rep' = [rep EXCEPT ![p.l] = [st |-> 2, c |-> <<>>]] /\ bud' = [bud EXCEPT ![p.l] = Len(c)] /\ stk' = [stk EXCEPT ![t].st = 1] /\ UNCHANGED <<c, lk>>
               [] p.op = "connf" -> rep' = [rep EXCEPT ![p.l] = [st |-> 1, c |-> c]] /\ stk' = [stk EXCEPT ![t].st = 2] /\ UNCHANGED <<c, own, lk, bud>>
               [] OTHER -> LET x == Res(kd, c, p.op, p.k, p.v, p.ls) IN
                    /\ own' = t /\ c' = x.c /\ bud' = [z \in Ls |-> IF rep[z].st = 0 THEN 0 ELSE x.n] /\ UNCHANGED <<lk, rep>>
                    /\ stk' = [stk EXCEPT ![t].st = 1, ![t].r = x.r, ![t].same = Bit(x.c = c)]
Note(t, x, o, k, v) ==
  /\ own = t /\ Busy(t) /\ rep[x].st > 0 /\ bud[x] > 0 /\ (stk[t].op = "conn") = (rep[x].st = 2)
  /\ NoteOk(kd, rep[x].c, o, k, v) /\ rep' = [rep EXCEPT ![x].c = Noted(kd, @, o, k, v)] /\ bud' = [bud EXCEPT ![x] = @ - 1] /\ UNCHANGED <<kd, c, own, lk, stk>>
\* setting an entry to the value it has may or may not be notified
Fin(t) ==
  /\ Busy(t) /\ \A x \in Ls : rep[x].st > 0 => (bud[x] = 0 \/ (stk[t].op = "set" /\ stk[t].same = 1)) /\ (rep[x].st = 1 \/ stk[t].op = "conn") /\ Same(kd, rep[x].c, c)
  /\ bud' = [x \in Ls |-> 0] /\ rep' = [x \in Ls |-> IF rep[x].st = 2 THEN [rep[x] EXCEPT !.st = 1] ELSE rep[x]]
  /\ own' = (IF lk = 1 THEN own ELSE -1) /\ stk' = [stk EXCEPT ![t].st = 2] /\ UNCHANGED <<kd, c, lk>>
Ret(t, op, r, ls) == stk[t].op = op /\ stk[t].st = 2 /\ stk[t].r = r /\ stk[t].out = ls /\ stk' = [stk EXCEPT ![t] = Idle] /\ UNCHANGED <<kd, c, own, lk, rep, bud>>
------------------------------------------------------------------------------
InvReplica == (\A t \in Threads : ~Busy(t)) => \A x \in Ls : rep[x].st = 1 => Same(kd, rep[x].c, c)
InvOne == \A t, u \in Threads : Busy(t) /\ Busy(u) => t = u
InvForm == WellFormed(kd, c)
=============================================================================

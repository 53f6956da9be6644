------------------------------- MODULE Cache -------------------------------
(* Caches: a queue of entries <<k, v>> in eviction order, total size limited (kinds fifo, lru), or three queues: entries enter inq, those evicted from it  *)
(* wait in outq and are promoted to hot when they are asked for again (kind 2q).  Evictions of one operation are reported one by one.                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANT Keys
VARIABLES kd,    \* [b: kind, sm: 1: an entry weighs v % 4, 0: 1; cap: limits of inq, outq, hot]
          q, oq, hq, pend, op, latest
vars == <<kd, q, oq, hq, pend, op, latest>>
Idle == [op |-> "", k |-> 0, r |-> 0]
Bit(p) == IF p THEN 1 ELSE 0
W(x) == IF kd.sm = 1 THEN x[2] % 4 ELSE 1
RECURSIVE Sz(_)
Sz(s) == IF s = <<>> THEN 0 ELSE W(s[1]) + Sz(Tail(s))
Has(s, k) == \E i \in DOMAIN s : s[i][1] = k
Val(s, k) == s[CHOOSE i \in DOMAIN s : s[i][1] = k][2]
Del(s, k) == SelectSeq(s, LAMBDA x : x[1] # k)
Put(s, k, v) == Append(Del(s, k), <<k, v>>)
RECURSIVE Over(_, _)     \* number of entries evicted from the front
Over(s, cap) == IF Sz(s) > cap THEN 1 + Over(Tail(s), cap) ELSE 0
Trim(s, cap) == SubSeq(s, Over(s, cap) + 1, Len(s))
Gone(s, cap) == SubSeq(s, 1, Over(s, cap))
RECURSIVE Demote(_, _, _)   \* entries evicted from inq enter outq one by one; [o: outq, ev: entries lost]
Demote(o, ev, xs) ==
  IF xs = <<>> THEN [o |-> o, ev |-> ev]
  ELSE LET o2 == Put(o, xs[1][1], xs[1][2]) IN Demote(Trim(o2, kd.cap[2]), ev \o Gone(o2, kd.cap[2]), Tail(xs))
Two == kd.b = "2q"
Set(k, v) ==
  /\ latest' = [latest EXCEPT ![k] = v]
  /\ IF ~Two THEN q' = Put(q, k, v) /\ UNCHANGED <<oq, hq, pend>>
     ELSE LET o == IF Has(hq, k) THEN oq ELSE Del(oq, k) n == Put(q, k, v) d == Demote(o, <<>>, Gone(n, kd.cap[1])) IN
          q' = Trim(n, kd.cap[1]) /\ hq' = Del(hq, k) /\ oq' = d.o /\ pend' = d.ev
Hit(k) == Has(q, k) \/ Has(oq, k) \/ Has(hq, k)
Found(k) == IF Has(hq, k) THEN Val(hq, k) ELSE IF Has(q, k) THEN Val(q, k) ELSE IF Has(oq, k) THEN Val(oq, k) ELSE -1
Touch(k) ==
  IF kd.b = "lru" /\ Has(q, k) THEN q' = Put(q, k, Val(q, k)) /\ UNCHANGED <<oq, hq, pend>>
  ELSE IF Two /\ Has(hq, k) THEN hq' = Put(hq, k, Val(hq, k)) /\ UNCHANGED <<q, oq, pend>>
  ELSE IF Two /\ ~Has(q, k) /\ Has(oq, k) THEN LET n == Put(hq, k, Val(oq, k)) IN oq' = Del(oq, k) /\ hq' = Trim(n, kd.cap[3]) /\ pend' = Gone(n, kd.cap[3]) /\ UNCHANGED q
  ELSE UNCHANGED <<q, oq, hq, pend>>
Call(o, k, v) ==
  /\ op.op = ""
  /\ op' = [op |-> o, k |-> k, r |-> CASE o = "get" -> Found(k) [] o = "rm" -> Bit(Hit(k)) [] o = "size" -> Sz(q) + Sz(oq) + Sz(hq) [] OTHER -> 0]
  /\ CASE o = "set" -> Set(k, v)
       [] o = "get" -> Touch(k) /\ UNCHANGED latest
       [] o = "rm" -> q' = Del(q, k) /\ oq' = Del(oq, k) /\ hq' = Del(hq, k) /\ latest' = [latest EXCEPT ![k] = -1] /\ UNCHANGED pend
       [] o = "clear" -> q' = <<>> /\ oq' = <<>> /\ hq' = <<>> /\ latest' = [j \in Keys |-> -1] /\ UNCHANGED pend
       [] o = "size" -> UNCHANGED <<q, oq, hq, pend, latest>>
  /\ UNCHANGED kd
\* an entry is lost
Evict(k, v) ==
  /\ op.op # ""
  /\ IF Two THEN pend # <<>> /\ pend[1] = <<k, v>> /\ pend' = Tail(pend) /\ UNCHANGED q
     ELSE q # <<>> /\ Sz(q) > kd.cap[1] /\ q[1] = <<k, v>> /\ q' = Tail(q) /\ UNCHANGED pend
  /\ latest' = IF latest[k] = v THEN [latest EXCEPT ![k] = -1] ELSE latest
  /\ UNCHANGED <<kd, oq, hq, op>>
\* a listener of the evictions asks the cache
Inner(k, r) == op.op # "" /\ ~Two /\ r = Found(k) /\ Touch(k) /\ UNCHANGED <<kd, op, latest>>
Ret(o, r) == op.op = o /\ o # "" /\ op.r = r /\ pend = <<>> /\ (Two \/ Sz(q) <= kd.cap[1]) /\ op' = Idle /\ UNCHANGED <<kd, q, oq, hq, pend, latest>>
Init0 == kd = [b |-> "", sm |-> 0, cap |-> <<0, 0, 0>>] /\ q = <<>> /\ oq = <<>> /\ hq = <<>> /\ pend = <<>> /\ op = Idle /\ latest = [k \in Keys |-> -1]
Kind(b, sm, cap) == kd' = [b |-> b, sm |-> sm, cap |-> cap] /\ UNCHANGED <<q, oq, hq, pend, op, latest>>
------------------------------------------------------------------------------
\* the limits hold between operations
Limit == op.op = "" => Sz(q) <= kd.cap[1] /\ Sz(oq) <= kd.cap[2] /\ Sz(hq) <= kd.cap[3]
\* a key is held once, with the value set last
Latest == \A k \in Keys : /\ Hit(k) => Found(k) = latest[k]
                          /\ Cardinality({i \in DOMAIN q : q[i][1] = k}) + Cardinality({i \in DOMAIN oq : oq[i][1] = k}) + Cardinality({i \in DOMAIN hq : hq[i][1] = k}) <= 1
\* nothing disappears but by removal or eviction
Kept == pend = <<>> => \A k \in Keys : latest[k] # -1 => Hit(k)
=============================================================================

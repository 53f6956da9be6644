-------------------------------- MODULE Once --------------------------------
(* Once-only initialisation and threads; one subject per history: a call-once function (once), a Singleton (sing), a SafeSingleton handing out shared         *)
(* pointers (safe), a PhoenixSingleton (phx), threads (thr). Objects are numbered in the order of their construction. The process exits while others still     *)
(* use a SafeSingleton: its object lives until the last pointer is dropped.                                                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Threads, Slots
VARIABLES kd,
          st,    \* of the object or function: none, run (being built), made (built, not yet published), pub, failed, dead
          by,    \* thread that builds it
          k,     \* objects built so far
          refs,  \* safe: pointers handed out and the one of the process
          ex,    \* the process has released its objects
          th,    \* slot -> thread object: [s: none, new, run, end; cn: cancelled; at: time of its creation; to: timeout or -1; fa: time at which its function began]
          pc
vars == <<kd, st, by, k, refs, ex, th, pc>>
Idle == [op |-> "", a |-> 0, at |-> 0, st |-> 0, r |-> 0]
NoTh == [s |-> "none", cn |-> 0, at |-> 0, to |-> -1, fa |-> 0, by |-> -1]
Bit(p) == IF p THEN 1 ELSE 0
Init0 == kd = "" /\ st = "none" /\ by = -1 /\ k = 0 /\ refs = 0 /\ ex = 0 /\ th = [i \in Slots |-> NoTh] /\ pc = [t \in Threads |-> Idle]
Kind(b) == kd' = b /\ UNCHANGED <<st, by, k, refs, ex, th, pc>>
Call(t, op, a, at) == pc[t].op = "" /\ pc' = [pc EXCEPT ![t] = [Idle EXCEPT !.op = op, !.a = a, !.at = at]] /\ UNCHANGED <<kd, st, by, k, refs, ex, th>>
Fin(t, r) == pc' = [pc EXCEPT ![t].st = 2, ![t].r = r]
Aft(t, op) == pc[t].op = op /\ pc[t].st = 0
\* ---- construction: by a thread that asks for the object, never by two
Cb(t) == Aft(t, "inst") /\ st = "none" /\ st' = "run" /\ by' = t /\ UNCHANGED <<kd, k, refs, ex, th, pc>>
Ce(t, n, ok) ==
  /\ st = "run" /\ by = t /\ UNCHANGED <<kd, refs, ex, th>>
  /\ IF ok = 1 THEN n = k + 1 /\ k' = n /\ st' = "made" /\ UNCHANGED <<by, pc>>
     ELSE n = 0 /\ UNCHANGED k /\ by' = -1 /\ IF kd = "phx" THEN st' = "none" /\ Fin(t, -1) ELSE st' = "failed" /\ UNCHANGED pc   \* phoenix: the next caller tries again
Pub(t) == st = "made" /\ by = t /\ st' = "pub" /\ by' = -1 /\ refs' = (IF kd = "safe" THEN 1 ELSE 0) /\ UNCHANGED <<kd, k, ex, th, pc>>
\* result: number of the object, 0: null, -1: exception
Inst(t) ==
  /\ Aft(t, "inst") /\ UNCHANGED <<kd, st, by, k, ex, th>>
  /\ CASE kd = "once" -> st = "pub" /\ Fin(t, 0) /\ UNCHANGED refs
       [] kd = "sing" -> st \in {"pub", "failed", "dead"} /\ Fin(t, IF st = "pub" THEN k ELSE -1) /\ UNCHANGED refs
       [] kd = "phx" -> st = "pub" /\ Fin(t, k) /\ UNCHANGED refs
       [] kd = "safe" -> st \in {"pub", "failed", "dead"} /\ IF refs > 0 THEN Fin(t, k) /\ refs' = refs + 1 ELSE Fin(t, 0) /\ UNCHANGED refs
       [] OTHER -> FALSE
Alive(t) == Aft(t, "alive") /\ Fin(t, Bit(st = "pub")) /\ UNCHANGED <<kd, st, by, k, refs, ex, th>>
\* ---- the last one to let go destroys the object before it returns
Drop(t) ==
  /\ (Aft(t, "drop") \/ Aft(t, "exit")) /\ kd = "safe" /\ UNCHANGED <<kd, st, by, k, th>>
  /\ IF pc[t].op = "exit" /\ st # "pub" THEN st # "dead" /\ Fin(t, 0) /\ UNCHANGED <<refs, ex>>   \* nothing to release yet
     ELSE /\ st = "pub" /\ refs > 0 /\ refs' = refs - 1 /\ ex' = (IF pc[t].op = "exit" THEN 1 ELSE ex)
          /\ pc' = [pc EXCEPT ![t].st = (IF refs = 1 THEN 1 ELSE 2)]
Exit(t) == Aft(t, "exit") /\ kd \in {"sing", "phx"} /\ ex' = 1 /\ IF st = "pub" THEN pc' = [pc EXCEPT ![t].st = 1] /\ UNCHANGED <<kd, st, by, k, refs, th>>
                                                                ELSE Fin(t, 0) /\ UNCHANGED <<kd, st, by, k, refs, th>>
Db(t, n) ==
  /\ pc[t].op \in {"drop", "exit"} /\ pc[t].st = 1 /\ st = "pub" /\ n = k /\ (kd = "safe" => refs = 0)
  /\ st' = (IF kd = "phx" THEN "none" ELSE "dead") /\ Fin(t, 0) /\ UNCHANGED <<kd, by, k, refs, ex, th>>
\* ---- threads: slot a
New(t, to) == Aft(t, "new") /\ LET i == pc[t].a IN th[i].s = "none" /\ th' = [th EXCEPT ![i] = [NoTh EXCEPT !.s = "new", !.at = pc[t].at, !.to = to]] /\ Fin(t, 0) /\ UNCHANGED <<kd, st, by, k, refs, ex>>
\* its function runs once, in a thread of its own
Fb(t, i, at) == th[i].s = "new" /\ (\A j \in Slots : th[j].s = "run" => th[j].by # t) /\ th' = [th EXCEPT ![i].s = "run", ![i].fa = at, ![i].by = t] /\ UNCHANGED <<kd, st, by, k, refs, ex, pc>>
Fe(t, i) == th[i].s = "run" /\ th[i].by = t /\ pc[t].op = "" /\ th' = [th EXCEPT ![i].s = "end"] /\ UNCHANGED <<kd, st, by, k, refs, ex, pc>>
\* destroying the thread object cancels the token and waits for the end
Cancel(t) == Aft(t, "join") /\ th' = [th EXCEPT ![pc[t].a].cn = 1] /\ pc' = [pc EXCEPT ![t].st = 1] /\ UNCHANGED <<kd, st, by, k, refs, ex>>
Joined(t) == pc[t].op = "join" /\ pc[t].st = 1 /\ th[pc[t].a].s = "end" /\ Fin(t, 1) /\ UNCHANGED <<kd, st, by, k, refs, ex, th>>
\* the function looks at its token (chk) or waits until it ends or for 0 or more microseconds (slp)
ChkC(t) == Aft(t, "chk") /\ \E i \in Slots : th[i].s = "run" /\ th[i].by = t /\ Fin(t, 1 - th[i].cn) /\ UNCHANGED <<kd, st, by, k, refs, ex, th>>
Mine(t) == CHOOSE i \in Slots : th[i].s = "run" /\ th[i].by = t
Do(t) == Pub(t) \/ Inst(t) \/ Alive(t) \/ Drop(t) \/ Exit(t) \/ Cancel(t) \/ Joined(t) \/ ChkC(t)
Ret(t, op, r, at) ==
  /\ pc[t].op = op /\ op # "" /\ pc[t].st = 2 /\ UNCHANGED <<kd, st, by, k, refs, ex, th>>
  /\ IF op = "chk"
     THEN LET x == th[Mine(t)] IN
          \/ r = 1 /\ pc[t].r = 1 /\ (x.to >= 0 => pc[t].at - x.fa <= x.to)
          \/ r = 0 /\ (pc[t].r = 0 \/ (x.to >= 0 /\ at - x.at >= x.to))
     ELSE pc[t].r = r
  /\ pc' = [pc EXCEPT ![t] = Idle]
------------------------------------------------------------------------------
\* an object handed out exists; a pointer keeps it
Ready == \A t \in Threads : pc[t].op = "inst" /\ pc[t].st = 2 /\ pc[t].r > 0 => k >= pc[t].r /\ (kd = "safe" => st = "pub")
Single == kd \in {"once", "sing", "safe"} => k <= 1
Kept == kd = "safe" /\ refs > 0 => st = "pub"
Joins == \A t \in Threads : pc[t].op = "join" /\ pc[t].st = 2 => th[pc[t].a].s = "end"
=============================================================================

--------------------------- MODULE CancellationMC ---------------------------
EXTENDS Cancellation
CONSTANTS W, C, Toks, MaxNow, MaxOps
VARIABLES now, ops
mvars == <<vars, now, ops>>
MInit == (\E j, s \in {0, 1} : InitWith(j, s)) /\ now = 0 /\ ops = 0
Ready(p) == p.op \notin {"wait", "sleep"} \/ Over(p, now)
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<vars, ops>> /\ (jit = 0 => \A p \in pend : ~Ready(p) /\ p.dl # now /\ p.tdl # now)
Dl == {-1} \cup ((now+1)..MaxNow)
Rest == \/ \E t \in W : (\E r \in {"Cancelled", "TimedOut", "Broadcasted"} : RetWait(t, r, now)) \/ (\E r \in {0, 1} : RetSleep(t, r, now))
        \/ \E p \in pend : LinCancel(p) \/ LinReset(p)
        \/ \E t \in C, x \in Toks : RetCancel(t, x) \/ RetReset(t, x, "ok") \/ RetReset(t, x, "exc")
Calls == \/ \E t \in W, S \in SUBSET Toks, d \in Dl : CallWait(t, S, 1, d, now)
         \/ \E t \in W, S \in (SUBSET Toks) \ {{}}, d \in Dl, e \in Dl : CallSleep(t, S, d, e, now)
         \/ \E t \in C, x \in Toks : CallTok(t, "cancel", x) \/ CallTok(t, "reset", x)
         \/ Notify(9, 1)
MNext == \/ Rest /\ UNCHANGED <<now, ops>>
         \/ ops < MaxOps /\ Calls /\ ops' = ops + 1 /\ UNCHANGED now
         \/ Tick
MSpec == MInit /\ [][MNext]_mvars
\* whoever is to be woken can return in every state
Wakeable == \A p \in pend : (p.op = "wait" /\ p.toks \cap canc # {}) => p.can = 1
=============================================================================

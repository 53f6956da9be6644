----------------------------- MODULE DeferrerMC -----------------------------
EXTENDS Deferrer
CONSTANTS T, K, Timeouts, Periods, MaxNow, Jit, MaxCancel
VARIABLES now, nextk, ncancel
mvars == <<vars, now, nextk, ncancel>>
MInit == InitWith(Jit) /\ now = 0 /\ nextk = 1 /\ ncancel = 0
W == 9
\* with no jitter time passes only when the timer has nothing due and no call is in progress
Tick == /\ now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<vars, nextk, ncancel>>
        /\ (Jit = 0 => pend = {} /\ (phase = "idle" => (dd = <<>> /\ \A c \in Els(conn) : c.due > now)))
Op == \/ \E t \in T \cup {W} : RetDefer(t) \/ RetCancel(t, "cancel") \/ RetCancel(t, "close")
      \/ \E p \in pend : LinDefer(p) \/ CancelA(p) \/ CancelB(p) \/ CancelSkip(p)
      \/ Arm
      \/ \E k \in K : Begin(W, k, now) \/ End(W, k, now)
Free == closed = 0 /\ ~\E p \in pend : p.op = "close"
MNext == \/ Op /\ UNCHANGED <<now, nextk, ncancel>>
         \/ \E t \in T, to \in Timeouts, pe \in Periods : Free /\ nextk \in K /\ CallDefer(t, nextk, to, pe, now) /\ nextk' = nextk + 1 /\ UNCHANGED <<now, ncancel>>
         \/ \E t \in T \cup (IF phase = "run" THEN {W} ELSE {}) : Free /\ ncancel < MaxCancel /\ CallCancel(t, "cancel") /\ ncancel' = ncancel + 1 /\ UNCHANGED <<now, nextk>>
         \/ Free /\ pend = {} /\ CallCancel(0, "close") /\ UNCHANGED <<now, nextk, ncancel>>
         \/ Tick
MSpec == MInit /\ [][MNext]_mvars
=============================================================================

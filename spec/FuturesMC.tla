----------------------------- MODULE FuturesMC -----------------------------
EXTENDS Futures
CONSTANTS T, Ps, Fs, MaxNow, MaxOps
VARIABLES now, ops
MInit == (\E j \in {0, 1} : InitWith(j)) /\ now = 0 /\ ops = 0
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<vars, ops>> /\ (jit = 0 => \A p \in pend : p.op = "wait" => p.dl # now)
NF == {f \in Fs : f \notin DOMAIN fut /\ \A g \in Fs : g < f => g \in DOMAIN fut}
Steps == \/ \E p \in pend : LinSet(p)
         \/ \E t \in T : RetSet(t, "ok") \/ RetSet(t, "already") \/ RetDestroy(t)
         \/ \E t \in T : (\E r \in {0, 7, -7, BROKEN} : RetGet(t, r)) \/ (\E r \in {"invalid", "ready", "timeout", "cancelled"} : RetWait(t, r, now))
         \/ (1 \in mayc /\ 1 \notin canc /\ RetCancel(1))
Live == {p \in DOMAIN prom : prom[p].c # 0}
Calls == \/ \E p \in Ps : (\A q \in Ps : q < p => q \in DOMAIN prom) /\ NewPromise(p)
         \/ \E p \in Live, f \in NF : (\E r \in {"ok", "retrieved"} : GetFuture(p, f, r))
         \/ \E p, q \in Live : p < q /\ (~\E x \in pend : x.op = "set") /\ Swap(p, q)
         \/ \E f \in DOMAIN fut, g \in NF : Share(f, g) \/ CopyShared(f, g)
         \/ \E t \in T, p \in Live, v \in {7, -7} : CallSet(t, p, v)
         \/ \E t \in T, p \in Live : (~\E x \in pend : x.op = "set" /\ x.h = p) /\ CallDestroy(t, p)
         \/ \E t \in T, f \in DOMAIN fut : CallGet(t, f, 1) \/ CallGet(t, f, 0) \/ CallWait(t, f, -1, 1, now) \/ CallWait(t, f, now + 1, 0, now)
         \/ 1 \notin mayc /\ CallCancel(1)
MNext == \/ Steps /\ UNCHANGED <<now, ops>>
         \/ ops < MaxOps /\ Calls /\ ops' = ops + 1 /\ UNCHANGED now
         \/ Tick
MSpec == MInit /\ [][MNext]_<<vars, now, ops>>
=============================================================================

---------------------------- MODULE LifeTokenMC ----------------------------
EXTENDS LifeToken
CONSTANTS T, G, MaxOps, MaxDepth
VARIABLE ops
mv == <<vars, ops>>
MInit == Init0 /\ ops = 0
MNext ==
  \/ ops < MaxOps /\ ops' = ops + 1 /\ \E t \in T : Len(Stk(t)) < MaxDepth /\ \E g \in G : CallExec(t, ops + 1, g) \/ CallRelease(t, g) \/ CallAsync(t, ops + 1, g)
  \/ UNCHANGED ops /\ \E t \in T : Refuse(t) \/ Kill(t) \/ RetRelease(t) \/ \E k \in 1..MaxOps : Begin(t, k) \/ End(t, k, "ok") \/ RetAsync(t, k) \/ \E r \in {"ok", "cancelled"} : RetExec(t, FALSE, r)
  \/ UNCHANGED ops /\ \E k \in 1..MaxOps : ABegin(9, k) \/ End(9, k, "ok") \/ End(9, k, "err")
MSpec == MInit /\ [][MNext]_mv
=============================================================================

------------------------------ MODULE CacheMC ------------------------------
EXTENDS Cache, TLC
CONSTANTS Vs, Caps
Init == \E b \in {"fifo", "lru", "2q"}, sm \in {0, 1}, c1 \in Caps, c2 \in Caps, c3 \in Caps : (b # "2q" => c2 = 0 /\ c3 = 0)
          /\ kd = [b |-> b, sm |-> sm, cap |-> <<c1, c2, c3>>] /\ q = <<>> /\ oq = <<>> /\ hq = <<>> /\ pend = <<>> /\ op = Idle /\ latest = [k \in Keys |-> -1]
Next == \/ \E k \in Keys : Call("get", k, 0) \/ Call("rm", k, 0) \/ (\E v \in Vs : Call("set", k, v) \/ Evict(k, v)) \/ Inner(k, Found(k))
        \/ Call("clear", 0, 0) \/ Call("size", 0, 0) \/ Ret(op.op, op.r)
Spec == Init /\ [][Next]_vars
\* an entry is evicted only when the queue it leaves is over its limit, and in the order of the queue
InOrder == [][\A k \in Keys : (~Two /\ Has(q, k) /\ ~Has(q', k) /\ op.op # "" /\ op'.op # "") => Sz(q) > kd.cap[1] /\ q[1][1] = k]_vars
=============================================================================

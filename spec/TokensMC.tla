------------------------------ MODULE TokensMC ------------------------------
EXTENDS Tokens, TLC
CONSTANTS MaxOb, MaxDepth, Ops
Init == Init0
Mine(t) == IF t = 0 THEN {0, 1} \cap Slots ELSE {2}
Next ==
  \/ \E t \in Threads, op \in Ops, i \in Slots, j \in Slots : i \in Mine(t) /\ j \in Mine(t) /\ Len(stk[t]) < MaxDepth /\
        \/ op \in {"copy", "move", "reset"} /\ Call(t, op, i, j, 0, 0, <<>>)
        \/ op = "put" /\ (Call(t, "copy", 3, j, 0, 0, <<>>) \/ Call(t, "move", 3, j, 0, 0, <<>>))     \* the shared token holder
        \/ op \in {"padd", "paddm", "prel"} /\ Call(t, op, 1, j, 0, 0, <<>>)
        \/ op \in {"madd", "maddm", "mrel", "mall"} /\ Call(t, op, 1, j, 0, 0, <<>>)
        \/ Len(ob) < MaxOb /\ op \in {"make", "wrap", "attach"} /\ \E k \in {0, 1} : Call(t, op, i, j, k, Len(ob) + 1, <<>>)
        \/ Len(ob) < MaxOb /\ op = "multi" /\ i # j /\ \E k \in {0, 1}, m \in 0..2 : Call(t, op, i, m, k, Len(ob) + 1, <<i, j>>)
        \/ Len(ob) < MaxOb /\ op = "scope" /\ \E k \in {0, 1} : Call(t, op, 0, 0, k, Len(ob) + 1, <<>>)
  \/ \E t \in Threads : Do(t) \/ Rel(t) \/ Gc(t) \/ (stk[t] # <<>> /\ (Begin(t, Top(t).o) \/ End(t, Top(t).o) \/ Ret(t, Top(t).op, Top(t).r)))
Spec == Init /\ [][Next]_vars
=============================================================================

---------------------------- MODULE AsyncStreamMC ----------------------------
(* The design: a queue of extents [off, d]; a write goes on an extent that ends at its position if no later extent overlaps it, or becomes a   *)
(* new extent; the worker takes extents from the front, carries out a part and puts the rest back. Every underlying write must be allowed by  *)
(* the abstract stream (flag bad), and the queue may be empty only when everything is written.                                                *)
EXTENDS AsyncStream, TLC
CONSTANTS Max, Writes, MaxSize, Prealloc, Merge \* Merge: "guarded" (as in the code) or "always"
VARIABLES queue, nx, bad
mvars == <<vars, queue, nx, bad>>
Init == /\ \E sy \in {0, 1} : InitWith([max |-> Max, nb |-> 0, sy |-> sy, pos |-> 0, len |-> 0]) /\ queue = <<>> /\ nx = 0 /\ bad = 0
Ext(o, d, lim) == [op |-> "w", off |-> o, d |-> d, lim |-> lim]
Overlap(a, b) == b.op = "w" /\ a.off < b.lim /\ b.off < a.lim
D(n) == [i \in 1..n |-> nx + i]
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
Ends == {i \in 1..Len(queue) : queue[i].op = "w" /\ queue[i].off + Len(queue[i].d) = pos}
Cand == IF Ends = {} THEN 0 ELSE LET i == Last(Ends) IN IF queue[i].lim > pos /\ (Merge = "always" \/ \A j \in i + 1..Len(queue) : ~Overlap(queue[i], queue[j])) THEN i ELSE 0
CWrite(n) == LET k == IF Cand = 0 THEN n ELSE IF n < queue[Cand].lim - pos THEN n ELSE queue[Cand].lim - pos IN
             /\ nx < Writes /\ pos + k <= Max /\ nx' = nx + k
             /\ queue' = IF Cand = 0 THEN Append(queue, Ext(pos, D(k), pos + Max2(k, Prealloc))) ELSE [queue EXCEPT ![Cand].d = @ \o D(k)]
             /\ hist' = [o \in Offs |-> IF o > pos /\ o <= pos + k THEN Append(hist[o], nx + o - pos) ELSE hist[o]]
             /\ pos' = pos + k /\ len' = Max2(len, pos + k) /\ UNCHANGED <<par, idx, synced, pend, broken, gone, quiet, cw, bad>>
CSeek == \E np \in 0..Max - 1 : np # pos /\ nx < Writes /\ SeekTo(np, 0) /\ UNCHANGED <<queue, nx, bad>>
CSync == pend = {} /\ nx < Writes + 2 /\ SyncCall(1) /\ queue' = Append(queue, [op |-> "s", off |-> 0, d |-> <<>>, lim |-> 0]) /\ UNCHANGED <<nx, bad>>
Worker == /\ queue # <<>> /\ UNCHANGED nx
          /\ LET q == queue[1] IN
             IF q.op = "w" THEN \E r \in 0..Len(q.d) : /\ r > 0 \/ Len(q.d) = 0
                                                       /\ queue' = IF r = Len(q.d) THEN Tail(queue) ELSE <<Ext(q.off + r, SubSeq(q.d, r + 1, Len(q.d)), q.lim)>> \o Tail(queue)
                                                       /\ IF ENABLED UWrite(q.off, q.d, r) THEN UWrite(q.off, q.d, r) /\ bad' = bad ELSE bad' = 1 /\ UNCHANGED vars
             ELSE queue' = Tail(queue) /\ USync /\ bad' = bad
SyncEnd == /\ pend # {} /\ (\A i \in 1..Len(queue) : queue[i].op # "s") /\ UNCHANGED <<queue, nx>>
           /\ IF ENABLED SyncRet(1, 0) THEN SyncRet(1, 0) /\ bad' = bad ELSE bad' = 1 /\ UNCHANGED vars
Next == (\E n \in 1..MaxSize : CWrite(n)) \/ CSeek \/ CSync \/ Worker \/ SyncEnd
Spec == Init /\ [][Next]_mvars
NotBad == bad = 0
Drained == queue = <<>> => idx = Lens
=============================================================================

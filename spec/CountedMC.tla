------------------------------ MODULE CountedMC ------------------------------
(* Ledgers kept beside the specification: every acquisition is released at most once before the next, every step undone at most once and newest first. *)
EXTENDS Counted, TLC
CONSTANTS MaxAcq, MaxRef, MaxStep
VARIABLES acq, rel, lost,     \* per key: completed acquisitions, completed releases, acquisitions whose release failed for good
          did, undone, com    \* steps completed, undone (completed undo or given up), committed
mv == <<vars, acq, rel, lost, did, undone, com>>
Init == Init0 /\ acq = [k \in Keys |-> 0] /\ rel = acq /\ lost = acq /\ did = <<>> /\ undone = <<>> /\ com = 0
Inc(x, k, b) == x' = [x EXCEPT ![k] = @ + (IF b THEN 1 ELSE 0)]
KAdd == \E k \in {1, 2}, f \in {0, 1}, c \in {0, 1}, r \in {Exc, 1}, v \in 0..(MaxAcq + 1) :
          ser < MaxAcq /\ refs[k] < MaxRef /\ Add(k, f, c, r, v) /\ Inc(acq, k, c = 1 /\ r = 1) /\ UNCHANGED <<rel, lost, did, undone, com>>
KRel == \E k \in {1, 2}, f \in {0, 1}, c \in {0, 1}, r \in {Exc, 0, 1}, v \in 0..MaxAcq :
          Release(k, f, c, r, v) /\ Inc(rel, k, c = 1 /\ r = 1) /\ Inc(lost, k, r = Exc /\ refs'[k] = 0) /\ UNCHANGED <<acq, did, undone, com>>
KClear == Clear(Listing(1)) /\ rel' = [k \in Keys |-> rel[k] + (IF refs[k] > 0 THEN 1 ELSE 0)] /\ UNCHANGED <<acq, lost, did, undone, com>>
KExec == \E f \in {0, 1}, c \in {0, 1}, r \in {Exc, 1} :
          Len(did) < MaxStep /\ Exec(Len(did) + 1, f, c, r) /\ (IF c = 1 /\ r = 1 THEN did' = Append(did, Len(did) + 1) ELSE UNCHANGED did) /\ UNCHANGED <<acq, rel, lost, undone, com>>
KCommit == \E r \in {Exc, 1} : Commit(r) /\ com' = (IF r = 1 THEN 1 ELSE com) /\ UNCHANGED <<acq, rel, lost, did, undone>>
KRoll == \E n \in 0..Len(steps), f \in {0, 1}, r \in {Exc, 1} : LET u == SubSeq(Rev(steps), 1, n) IN
          Rollback(u, f, r) /\ undone' = undone \o SubSeq(u, 1, Len(steps) - Len(steps')) /\ UNCHANGED <<acq, rel, lost, did, com>>
Next == KAdd \/ KRel \/ KClear \/ KExec \/ KCommit \/ KRoll
Spec == Init /\ [][Next]_mv
Balanced == \A k \in Keys : acq[k] - rel[k] - lost[k] = IF refs[k] > 0 THEN 1 ELSE 0
OnceEach == \A i, j \in 1..Len(undone) : undone[i] = undone[j] => i = j
Kept == com = 1 /\ undone # <<>> => act = 0
AllUndone == act = 0 /\ com = 0 => Len(undone) = Len(did) /\ {undone[i] : i \in DOMAIN undone} = {did[i] : i \in DOMAIN did}
\* a step undone before an older one, unless the newer was executed after that
=============================================================================

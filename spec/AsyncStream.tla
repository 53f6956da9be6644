---------------------------- MODULE AsyncStream ----------------------------
(* Asynchronous byte stream: clients' writes are queued and carried out by a worker on an underlying stream, in pieces of its choice; what    *)
(* counts is that at every offset the underlying stream goes through the values written there without ever going back, that Sync returns     *)
(* only when everything written before it is in the underlying stream and synced there, and that in the end everything is.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES par, hist, idx, pos, len, synced, pend, broken, gone, quiet, cw
\* par: [max, nb, sy, pos, len]: number of offsets, non-blocking sync, underlying stream can sync, initial position and length
\* hist[o]: values written by the client at offset o-1, oldest first; idx[o]: how many of them the underlying stream has (passed); pos, len: client's position, length
\* synced[o]: idx at the last underlying sync; pend: Syncs in progress; broken: an underlying operation failed; quiet: everything was written and nothing done since; cw: the client's write in progress
vars == <<par, hist, idx, pos, len, synced, pend, broken, gone, quiet, cw>>
Max2(a, b) == IF a > b THEN a ELSE b
Offs == 1..par.max
NoWrite == [st |-> "none", d |-> <<>>, r |-> 0]
InitWith(p) == /\ par = p /\ hist = [o \in 1..p.max |-> <<>>] /\ idx = [o \in 1..p.max |-> 0] /\ pos = p.pos /\ len = p.len /\ synced = [o \in 1..p.max |-> 0]
               /\ pend = {} /\ broken = 0 /\ gone = 0 /\ quiet = 0 /\ cw = NoWrite
Lens == [o \in Offs |-> Len(hist[o])]
\* ---- client (one thread); -1: refused, because an earlier operation failed
WriteCall(d) == cw.st = "none" /\ cw' = [st |-> "called", d |-> d, r |-> 0] /\ UNCHANGED <<par, hist, idx, pos, len, synced, pend, broken, gone, quiet>>
\* any number of bytes is accepted, but not nothing when everything is written
WriteDo(r) == /\ cw.st = "called" /\ r <= Len(cw.d) /\ (quiet = 1 /\ Len(cw.d) > 0 => r > 0)
              /\ hist' = [o \in Offs |-> IF o > pos /\ o <= pos + r THEN Append(hist[o], cw.d[o - pos]) ELSE hist[o]]
              /\ pos' = pos + r /\ len' = (IF r > 0 THEN Max2(len, pos + r) ELSE len) /\ quiet' = 0
              /\ cw' = [cw EXCEPT !.st = "done", !.r = r] /\ UNCHANGED <<par, idx, synced, pend, broken, gone>>
WriteRet(r) == /\ (cw.st = "done" /\ r = cw.r) \/ (cw.st = "called" /\ r = -1 /\ broken = 1)
               /\ cw' = NoWrite /\ UNCHANGED <<par, hist, idx, pos, len, synced, pend, broken, gone, quiet>>
SeekTo(np, r) == /\ \/ r = -1 /\ broken = 1 /\ pos' = pos
                    \/ np < 0 /\ r = -2 /\ pos' = pos
                    \/ np >= 0 /\ r = 0 /\ pos' = np
                 /\ UNCHANGED <<par, hist, idx, len, synced, pend, broken, gone, quiet, cw>>
Tell(r) == ((r = -1 /\ broken = 1) \/ r = pos) /\ UNCHANGED vars
SyncCall(t) == pend' = pend \cup {[t |-> t, snap |-> Lens]} /\ UNCHANGED <<par, hist, idx, pos, len, synced, broken, gone, quiet, cw>>
SyncRet(t, r) == \E p \in pend : /\ p.t = t /\ pend' = pend \ {p}
                                 /\ \/ r = -1 /\ broken = 1
                                    \/ r = 0 /\ (par.nb = 1 \/ \A o \in Offs : IF par.sy = 1 THEN synced[o] >= p.snap[o] ELSE idx[o] >= p.snap[o])
                                 /\ UNCHANGED <<par, hist, idx, pos, len, synced, broken, gone, quiet, cw>>
\* ---- the underlying stream (called by the worker): r bytes of d written at off
UWrite(off, d, r) == /\ broken = 0 /\ gone = 0 /\ off + r <= par.max /\ r <= Len(d)
                     /\ \A i \in 1..r : \E j \in 1..Len(hist[off + i]) : j > idx[off + i] /\ hist[off + i][j] = d[i]
                     /\ idx' = [o \in Offs |-> IF o > off /\ o <= off + r THEN CHOOSE j \in 1..Len(hist[o]) : hist[o][j] = d[o - off] ELSE idx[o]]
                     /\ quiet' = 0 /\ UNCHANGED <<par, hist, pos, len, synced, pend, broken, gone, cw>>
USync == /\ broken = 0 /\ gone = 0 /\ synced' = idx /\ UNCHANGED <<par, hist, idx, pos, len, pend, broken, gone, quiet, cw>>
UFail == broken = 0 /\ gone = 0 /\ broken' = 1 /\ UNCHANGED <<par, hist, idx, pos, len, synced, pend, gone, quiet, cw>>
Destroyed == /\ gone' = 1 /\ (broken = 1 \/ idx = Lens) /\ UNCHANGED <<par, hist, idx, pos, len, synced, pend, broken, quiet, cw>>
\* nothing happens any more: everything is written, no Sync is waiting
Idle == /\ (broken = 1 \/ (idx = Lens /\ pend = {} /\ cw.st = "none")) /\ quiet' = 1 - broken
        /\ UNCHANGED <<par, hist, idx, pos, len, synced, pend, broken, gone, cw>>
------------------------------------------------------------------------------
InvIdx == \A o \in Offs : synced[o] <= idx[o] /\ idx[o] <= Len(hist[o])
NeverBack == [][\A o \in Offs : idx'[o] >= idx[o] /\ Len(hist'[o]) >= Len(hist[o])]_vars
InvLen == pos >= 0 /\ \A o \in Offs : hist[o] # <<>> => o <= len
=============================================================================

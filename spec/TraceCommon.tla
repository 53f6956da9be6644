---------------------------- MODULE TraceCommon ----------------------------
(* Common part of every trace specification: a batch of recorded histories of the real code, one behaviour per history.  *)
(* A history is accepted when the specification has a behaviour that consumes all of its events (tid printed as ACC).    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES tid, l

Traces == JsonDeserialize(IOEnv.TRACES)
Tr == Traces[tid]
E  == Tr[l]

TraceInit0 == tid \in 1..Len(Traces) /\ l = 1
More == l <= Len(Tr)
Is(e) == More /\ Tr[l].e = e /\ l' = l + 1 /\ UNCHANGED tid
IsCall(op) == More /\ Tr[l].e = "call" /\ Tr[l].op = op /\ l' = l + 1 /\ UNCHANGED tid
IsRet(op)  == More /\ Tr[l].e = "ret"  /\ Tr[l].op = op /\ l' = l + 1 /\ UNCHANGED tid
Silent == More /\ UNCHANGED <<tid, l>>
AtEnd == l = Len(Tr) + 1 /\ PrintT(<<"ACC", tid>>) /\ l' = l + 1 /\ UNCHANGED tid
Range0(s) == {s[i] : i \in 1..Len(s)}
=============================================================================

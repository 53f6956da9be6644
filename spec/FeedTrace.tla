----------------------------- MODULE FeedTrace -----------------------------
EXTENDS Feed, TraceCommon
TInit == TraceInit0 /\ Init0
TNext ==
  \/ Is("cfg") /\ Make([al |-> E.al, ps |-> E.ps, ic |-> E.ic], E.d, E.ch)
  \/ Is("p") /\ Offer(E.d, E.r)
  \/ Is("i") /\ Intercept(E.d)
  \/ Is("eod") /\ Eod
  \/ Is("end") /\ End
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

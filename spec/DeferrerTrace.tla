--------------------------- MODULE DeferrerTrace ---------------------------
EXTENDS Deferrer, TraceCommon
TInit == TraceInit0 /\ InitWith(Tr[1].jit)
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ IsCall("defer") /\ CallDefer(E.t, E.k, E.to, E.per, E.now)
  \/ IsRet("defer") /\ RetDefer(E.t)
  \/ IsCall("cancel") /\ CallCancel(E.t, "cancel")
  \/ IsRet("cancel") /\ RetCancel(E.t, "cancel")
  \/ IsCall("close") /\ CallCancel(E.t, "close")
  \/ IsRet("close") /\ RetCancel(E.t, "close")
  \/ Is("begin") /\ Begin(E.t, E.k, E.now)
  \/ Is("end") /\ End(E.t, E.k, E.now)
  \/ Is("idle") /\ Idle(E.now)
  \/ Silent /\ (Arm \/ \E p \in pend : LinDefer(p) \/ CancelA(p) \/ CancelB(p) \/ CancelSkip(p))
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

------------------------- MODULE TaskExecutorTrace -------------------------
EXTENDS TaskExecutor, TraceCommon
Cfg == Is("cfg")
TInit == TraceInit0 /\ InitWith(Tr[1].kind)
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ IsCall("add") /\ CallAdd(E.t, [k |-> E.k, tok |-> E.tok, thr |-> E.thr])
  \/ IsRet("add") /\ RetAdd(E.t)
  \/ IsCall("kill") /\ CallKill(E.t, E.tok)
  \/ IsRet("kill") /\ RetKill(E.t)
  \/ IsCall("clear") /\ CallClear(E.t)
  \/ IsRet("clear") /\ RetClear(E.t)
  \/ IsCall("cancel") /\ CallCancel(E.t)
  \/ IsRet("cancel") /\ RetCancel(E.t)
  \/ IsCall("run") /\ CallRun(E.t, E.canc)
  \/ IsRet("run") /\ RetRun(E.t)
  \/ Is("begin") /\ Begin(E.t, E.k)
  \/ Is("end") /\ End(E.t, E.k)
  \/ Is("throw") /\ Throw(E.t, E.k)
  \/ Is("handler") /\ Handler(E.t, E.k)
  \/ IsCall("close") /\ CallClose(E.t)
  \/ IsRet("close") /\ RetClose(E.t)
  \/ Is("idle") /\ Idle
  \/ Silent /\ \E p \in pend : LinAdd(p) \/ LinKill(p) \/ LinClear(p) \/ LinCancel(p) \/ RunStart(p) \/ RunRefused(p) \/ RunEnd(p)
  \/ Silent /\ (Take(exec) \/ Drop)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

-------------------------- MODULE ThreadPoolTrace --------------------------
EXTENDS ThreadPool, TraceCommon
TInit == TraceInit0 /\ InitWith(Tr[1].max, Tr[1].idle)
TNext ==
  \/ Is("cfg") /\ UNCHANGED vars
  \/ IsCall("try") /\ Call(E.t, "try", E.k, E.thr, -1, 0)
  \/ IsCall("queue") /\ Call(E.t, "queue", E.k, E.thr, -1, 0)
  \/ IsCall("can") /\ Call(E.t, "can", 0, 0, -1, 0)
  \/ IsCall("wait") /\ Call(E.t, "wait", E.k, E.thr, E.dl, E.canc)
  \/ IsRet("try") /\ Ret(E.t, "try", E.r)
  \/ IsRet("queue") /\ Ret(E.t, "queue", E.r)
  \/ IsRet("can") /\ Ret(E.t, "can", E.r)
  \/ IsRet("wait") /\ IF E.r = "ok" THEN Ret(E.t, "wait", "ok") ELSE RetGaveUp(E.t, E.r, E.now)
  \/ IsCall("cancel") /\ CallCancel(E.x)
  \/ IsRet("cancel") /\ RetCancel(E.x)
  \/ Is("begin") /\ Begin(E.t, E.k)
  \/ Is("end") /\ End(E.t, E.k)
  \/ Is("throw") /\ Throw(E.t, E.k)
  \/ Is("handler") /\ Handler(E.t, E.k)
  \/ Is("stopped") /\ Stopped(E.k, E.c)
  \/ IsCall("close") /\ CallClose
  \/ IsRet("close") /\ E.thr = 0 /\ RetClose
  \/ Is("idle") /\ Idle(E.now, E.thr)
  \/ Silent /\ (Free \/ \E p \in pend : Accept(p) \/ Refuse(p) \/ Offer(p))
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

----------------------------- MODULE LifeToken -----------------------------
(* Life tokens: functions guarded by a token generation g (cancellable functions, async functions with futures).            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES dead, stk, queued, outcome, done
\* dead: released generations; stk: thread -> frames; queued: async tasks handed to the executor [k, g]; outcome: results of async tasks;
\* done: <<t, g>> releases that have returned
vars == <<dead, stk, queued, outcome, done>>
Init0 == dead = {} /\ stk = <<>> /\ queued = {} /\ outcome = {} /\ done = {}
Stk(t) == IF t \in DOMAIN stk THEN stk[t] ELSE <<>>
SetStk(t, s) == IF s = <<>> THEN [u \in DOMAIN stk \ {t} |-> stk[u]] ELSE [u \in DOMAIN stk \cup {t} |-> IF u = t THEN s ELSE stk[u]]
Top(t) == Stk(t)[Len(Stk(t))]
HasTop(t, op) == Stk(t) # <<>> /\ Top(t).op = op
Rest(t) == SubSeq(Stk(t), 1, Len(Stk(t)) - 1)
MayCall(t) == IF Stk(t) = <<>> THEN TRUE ELSE Top(t).op = "run"
Fr(op, k, g, ph) == [op |-> op, k |-> k, g |-> g, ph |-> ph]
Push(t, f) == stk' = SetStk(t, Append(Stk(t), f))
Pop(t) == stk' = SetStk(t, Rest(t))
SetTop(t, f) == stk' = SetStk(t, Append(Rest(t), f))
RunningElsewhere(g, t) == \E u \in DOMAIN stk : u # t /\ \E i \in 1..Len(stk[u]) : stk[u][i].op = "run" /\ stk[u][i].g = g

CallExec(t, k, g) == MayCall(t) /\ Push(t, Fr("exec", k, g, "new")) /\ UNCHANGED <<dead, queued, outcome, done>>
Begin(t, k) == /\ HasTop(t, "exec") /\ Top(t).k = k /\ Top(t).ph = "new" /\ Top(t).g \notin dead
               /\ stk' = SetStk(t, Append(Append(Rest(t), [Top(t) EXCEPT !.ph = "ok"]), Fr("run", k, Top(t).g, "")))
               /\ UNCHANGED <<dead, queued, outcome, done>>
\* r: how the body ended ("ok", or "err" when it threw)
End(t, k, r) == /\ HasTop(t, "run") /\ Top(t).k = k
                /\ IF Rest(t) = <<>> THEN stk' = SetStk(t, <<>>) /\ outcome' = outcome \cup {<<k, r>>}
                   ELSE stk' = SetStk(t, Append(SubSeq(Rest(t), 1, Len(Rest(t)) - 1), [Rest(t)[Len(Rest(t))] EXCEPT !.ph = r])) /\ UNCHANGED outcome
                /\ UNCHANGED <<dead, queued, done>>
Refuse(t) == HasTop(t, "exec") /\ Top(t).ph = "new" /\ Top(t).g \in dead /\ SetTop(t, [Top(t) EXCEPT !.ph = "cancelled"]) /\ UNCHANGED <<dead, queued, outcome, done>>
\* isVoid: a cancelled void function returns silently, any other fails
RetExec(t, isVoid, r) == /\ HasTop(t, "exec") /\ r = (IF Top(t).ph = "cancelled" /\ isVoid THEN "ok" ELSE Top(t).ph) /\ Top(t).ph # "new"
                         /\ Pop(t) /\ UNCHANGED <<dead, queued, outcome, done>>
CallRelease(t, g) == MayCall(t) /\ Push(t, Fr("release", 0, g, "new")) /\ UNCHANGED <<dead, queued, outcome, done>>
Kill(t) == /\ HasTop(t, "release") /\ Top(t).ph = "new" /\ ~RunningElsewhere(Top(t).g, t)
           /\ dead' = dead \cup {Top(t).g} /\ SetTop(t, [Top(t) EXCEPT !.ph = "ok"]) /\ UNCHANGED <<queued, outcome, done>>
RetRelease(t) == HasTop(t, "release") /\ Top(t).ph = "ok" /\ done' = done \cup {<<t, Top(t).g>>} /\ Pop(t) /\ UNCHANGED <<dead, queued, outcome>>
\* async function: the task is handed to the executor during the call
CallAsync(t, k, g) == MayCall(t) /\ Push(t, Fr("async", k, g, "")) /\ queued' = queued \cup {<<k, g>>} /\ UNCHANGED <<dead, outcome, done>>
RetAsync(t, k) == HasTop(t, "async") /\ Top(t).k = k /\ Pop(t) /\ UNCHANGED <<dead, queued, outcome, done>>
ABegin(t, k) == \E q \in queued : q[1] = k /\ q[2] \notin dead /\ Stk(t) = <<>> /\ Push(t, Fr("run", k, q[2], "")) /\ queued' = queued \ {q}
                                  /\ UNCHANGED <<dead, outcome, done>>
\* at rest, the future of an async function tells what happened to it
Fut(k, r) == /\ stk = <<>> /\ IF r = "broken" THEN \E q \in queued : q[1] = k /\ q[2] \in dead ELSE <<k, r>> \in outcome
             /\ UNCHANGED vars
------------------------------------------------------------------------------
\* no guarded function starts after the release of its token returned; when it returns, none is running in another thread
NoStartAfterRelease == [][\A t \in DOMAIN stk' : (Len(stk'[t]) > Len(Stk(t)) /\ stk'[t][Len(stk'[t])].op = "run")
                            => \A d \in done : d[2] # stk'[t][Len(stk'[t])].g]_vars
Barrier == [][\A d \in done' \ done : ~RunningElsewhere(d[2], d[1])]_vars
RunsOnce == \A o1, o2 \in outcome : o1[1] = o2[1] => o1 = o2
=============================================================================

------------------------------ MODULE Signals ------------------------------
(* A signal with sync and async (executor) handlers, populator and external mutex.                                          *)
(* Every thread has a stack of frames: invocations, handler bodies, connects, resets nest arbitrarily.                      *)
(* Handlers are numbered by the client; a handler is connected once.                                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES
  guarded,  \* thread-safe signal: every handler call is guarded by the connection's life token
  policy,   \* "any" | "sync" | "async"
  popul,    \* 0: no populator, 1: populator sends the state, 2: ... and then throws
  list,     \* connected handlers in connection order
  async,    \* handlers connected with an executor
  dead,     \* handlers whose life token is released
  owner,    \* thread holding the signal's mutex through a locker or a connect, -1 if none
  cur,      \* the state guarded by the signal's mutex (sent by the populator)
  queue,    \* tasks handed to the executor: a set of [h, v, c, i, after]: c the chain (one per invocation), i the position in it,
            \* after: chains certainly handed over before; the order of concurrent chains is decided when the tasks are observed
  fin, nch, \* finished chains, number of chains
  stk,      \* thread -> stack of frames (threads with an empty stack are not in the domain)
  order, connected, resetting, released   \* history: order of additions; connects returned; resets called; <<t, h>> resets returned

vars == <<guarded, policy, popul, list, async, dead, owner, cur, queue, fin, nch, stk, order, connected, resetting, released>>
cfgv == <<guarded, policy, popul>>
qv == <<queue, fin, nch>>
hist == <<order, connected, resetting, released>>

InitWith(g, pol, pop) ==
  /\ guarded = g /\ policy = pol /\ popul = pop /\ list = <<>> /\ async = {} /\ dead = {} /\ owner = -1 /\ cur = 0 /\ queue = {} /\ fin = {} /\ nch = 0 /\ stk = <<>>
  /\ order = <<>> /\ connected = {} /\ resetting = {} /\ released = {}

Stk(t) == IF t \in DOMAIN stk THEN stk[t] ELSE <<>>
SetStk(t, s) == IF s = <<>> THEN [u \in DOMAIN stk \ {t} |-> stk[u]] ELSE [u \in DOMAIN stk \cup {t} |-> IF u = t THEN s ELSE stk[u]]
Top(t) == Stk(t)[Len(Stk(t))]
HasTop(t, ops) == Stk(t) # <<>> /\ Top(t).op \in ops
Push(t, f) == stk' = SetStk(t, Append(Stk(t), f))
Rest(t) == SubSeq(Stk(t), 1, Len(Stk(t)) - 1)
Pop(t) == stk' = SetStk(t, Rest(t))
SetTop(t, f) == stk' = SetStk(t, Append(Rest(t), f))
\* f.a: connect: 1 if async; run: 1 if called by the populator, 2 if by the executor.  must/got: handlers that must be / have been reached by an invocation
Frame(op, h, v, a) == [op |-> op, h |-> h, v |-> v, a |-> a, ph |-> 0, snap |-> <<>>, must |-> {}, got |-> <<>>, c |-> 0, after |-> {}]
MayCall(t) == IF Stk(t) = <<>> THEN TRUE ELSE Top(t).op = "run"
Range(s) == {s[i] : i \in 1..Len(s)}
Running(h, t) == \E i \in 1..Len(Stk(t)) : Stk(t)[i].op = "run" /\ Stk(t)[i].h = h
RunningElsewhere(h, t) == \E u \in DOMAIN stk : u # t /\ Running(h, u)

Lockable(t) == owner \in {-1, t}
\* frames below the top that hold the mutex
StillHeld(t) == \E i \in 1..Len(Rest(t)) : Rest(t)[i].op \in {"set", "conn", "scs"} /\ Rest(t)[i].ph \in {1, 2}
Unlocked(t) == IF StillHeld(t) THEN owner ELSE -1

\* ---- invocation: plain, or "set": changes the state and notifies under the mutex
Must == {h \in connected : h \notin resetting}
CallInv(t, op, v) == /\ MayCall(t) /\ Push(t, [Frame(op, 0, v, 0) EXCEPT !.must = Must, !.c = nch + 1, !.after = fin]) /\ nch' = nch + 1
                     /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, queue, fin, hist>>
LockSet(t) == /\ HasTop(t, {"set"}) /\ Top(t).ph = 0 /\ Lockable(t) /\ owner' = t /\ cur' = Top(t).v
              /\ SetTop(t, [Top(t) EXCEPT !.ph = 1, !.after = fin]) /\ UNCHANGED <<cfgv, list, async, dead, qv, hist>>
Snapshot(t) == /\ HasTop(t, {"set", "inv"}) /\ Top(t).ph = (IF Top(t).op = "set" THEN 1 ELSE 0)
               /\ SetTop(t, [Top(t) EXCEPT !.ph = 2, !.snap = list]) /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, qv, hist>>
AtHandler(t) == HasTop(t, {"set", "inv"}) /\ Top(t).ph = 2 /\ Top(t).snap # <<>>
\* pass dead handlers, hand async ones to the executor
Passable(h) == h \in async \/ (guarded /\ h \in dead)
PassLen(s) == CHOOSE n \in 0..Len(s) : (\A i \in 1..n : Passable(s[i])) /\ (IF n < Len(s) THEN ~Passable(s[n + 1]) ELSE TRUE)
Entry(f, i) == [h |-> f.snap[i], v |-> f.v, c |-> f.c, i |-> Len(f.got) + i, after |-> f.after]
Pass(t) == /\ AtHandler(t) /\ LET f == Top(t) n == PassLen(f.snap) IN
                /\ n > 0
                /\ queue' = queue \cup {Entry(f, i) : i \in {j \in 1..n : f.snap[j] \in async}}
                /\ SetTop(t, [f EXCEPT !.snap = SubSeq(f.snap, n + 1, Len(f.snap)), !.got = f.got \o SelectSeq(SubSeq(f.snap, 1, n), LAMBDA h : h \in async)])
           /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, fin, nch, hist>>
Begin(t, h, v) == /\ AtHandler(t) /\ Head(Top(t).snap) = h /\ Top(t).v = v /\ h \notin async /\ (guarded => h \notin dead)
                  /\ stk' = SetStk(t, Append(Append(Rest(t), [Top(t) EXCEPT !.snap = Tail(@), !.got = Append(@, h)]), Frame("run", h, v, 0)))
                  /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, qv, hist>>
Finished(c) == fin' = (fin \cup {c}) \cap {e.c : e \in queue}
UnlockSet(t) == /\ HasTop(t, {"set"}) /\ Top(t).ph = 2 /\ Top(t).snap = <<>> /\ SetTop(t, [Top(t) EXCEPT !.ph = 3])
                /\ owner' = Unlocked(t) /\ Finished(Top(t).c) /\ UNCHANGED <<cfgv, list, async, dead, cur, queue, nch, hist>>
RetInv(t, op) == /\ HasTop(t, {op}) /\ Top(t).ph = (IF op = "set" THEN 3 ELSE 2) /\ Top(t).snap = <<>> /\ Pop(t)
                 /\ Finished(Top(t).c) /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, queue, nch, hist>>

\* ---- handler bodies
End(t, h) == HasTop(t, {"run"}) /\ Top(t).h = h /\ Pop(t) /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, qv, hist>>
Throw(t, h) == HasTop(t, {"run"}) /\ Top(t).h = h /\ SetTop(t, [Top(t) EXCEPT !.op = "thrown"]) /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, qv, hist>>
Handler(t, h) == HasTop(t, {"thrown"}) /\ Top(t).h = h /\ Pop(t) /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, qv, hist>>

\* ---- connecting: lock, send the current state, add, unlock
Refused(as) == (as = 1 /\ policy = "sync") \/ (as = 0 /\ policy = "async")
CallConn(t, h, as, scs) == MayCall(t) /\ Push(t, Frame("conn", h, scs, as)) /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, qv, hist>>
LockConn(t) == /\ HasTop(t, {"conn"}) /\ Top(t).ph = 0 /\ ~Refused(Top(t).a) /\ Lockable(t) /\ owner' = t
               /\ SetTop(t, [Top(t) EXCEPT !.ph = IF Top(t).v = 1 /\ popul > 0 THEN 1 ELSE 2])
               /\ UNCHANGED <<cfgv, list, async, dead, cur, qv, hist>>
\* the populator calls the slot directly, or through the executor
BeginPop(t, h, v) == /\ HasTop(t, {"conn", "scs"}) /\ Top(t).ph = 1 /\ Top(t).h = h /\ Top(t).a = 0 /\ v = cur
                     /\ stk' = SetStk(t, Append(Append(Rest(t), [Top(t) EXCEPT !.ph = 2]), Frame("run", h, v, 1)))
                     /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, qv, hist>>
EnqPop(t) == /\ HasTop(t, {"conn"}) /\ Top(t).ph = 1 /\ Top(t).a = 1 /\ nch' = nch + 1
             /\ queue' = queue \cup {[h |-> Top(t).h, v |-> cur, c |-> nch + 1, i |-> 0, after |-> fin]} /\ fin' = fin \cup {nch + 1}
             /\ SetTop(t, [Top(t) EXCEPT !.ph = 2]) /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, hist>>
\* the populator itself throws after having sent the state
PopThrew(t) == /\ HasTop(t, {"conn", "scs"}) /\ Top(t).ph = 2 /\ popul = 2 /\ (Top(t).op = "conn" => Top(t).v = 1)
               /\ SetTop(t, [Top(t) EXCEPT !.got = <<1>>]) /\ Top(t).got = <<>> /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, qv, hist>>
PopDone(f) == popul = 2 /\ (f.op = "conn" => f.v = 1) => f.got = <<1>>
Add(t) == /\ HasTop(t, {"conn"}) /\ Top(t).ph = 2 /\ PopDone(Top(t)) /\ list' = Append(list, Top(t).h) /\ order' = Append(order, Top(t).h)
          /\ async' = (IF Top(t).a = 1 THEN async \cup {Top(t).h} ELSE async)
          /\ owner' = Unlocked(t) /\ SetTop(t, [Top(t) EXCEPT !.ph = 3])
          /\ UNCHANGED <<cfgv, dead, cur, qv, connected, resetting, released>>
RetConn(t, ok) == /\ HasTop(t, {"conn"}) /\ Pop(t)
                  /\ IF ok THEN Top(t).ph = 3 /\ connected' = connected \cup {Top(t).h}
                     ELSE Top(t).ph = 0 /\ Refused(Top(t).a) /\ UNCHANGED connected
                  /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, qv, order, resetting, released>>
\* SendCurrentState(slot)
CallScs(t, h) == MayCall(t) /\ Push(t, Frame("scs", h, 1, 0)) /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, qv, hist>>
LockScs(t) == /\ HasTop(t, {"scs"}) /\ Top(t).ph = 0 /\ Lockable(t) /\ owner' = t
              /\ SetTop(t, [Top(t) EXCEPT !.ph = IF popul > 0 THEN 1 ELSE 2]) /\ UNCHANGED <<cfgv, list, async, dead, cur, qv, hist>>
UnlockScs(t) == /\ HasTop(t, {"scs"}) /\ Top(t).ph = 2 /\ PopDone(Top(t)) /\ SetTop(t, [Top(t) EXCEPT !.ph = 3]) /\ owner' = Unlocked(t)
                /\ UNCHANGED <<cfgv, list, async, dead, cur, qv, hist>>
RetScs(t) == /\ HasTop(t, {"scs"}) /\ Top(t).ph = 3 /\ Pop(t) /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, qv, hist>>

\* ---- disconnecting: leave the list, then release the life token (waits for the handler running in another thread)
CallReset(t, h) == MayCall(t) /\ h \in connected /\ h \notin resetting /\ resetting' = resetting \cup {h} /\ Push(t, Frame("reset", h, 0, 0))
                   /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, qv, order, connected, released>>
Remove(t) == /\ HasTop(t, {"reset"}) /\ Top(t).ph = 0 /\ list' = SelectSeq(list, LAMBDA x : x # Top(t).h)
             /\ SetTop(t, [Top(t) EXCEPT !.ph = 1]) /\ UNCHANGED <<cfgv, async, dead, owner, cur, qv, hist>>
Kill(t) == /\ HasTop(t, {"reset"}) /\ Top(t).ph = 1 /\ (guarded \/ Top(t).h \in async => ~RunningElsewhere(Top(t).h, t))
           /\ dead' = dead \cup {Top(t).h} /\ SetTop(t, [Top(t) EXCEPT !.ph = 2]) /\ UNCHANGED <<cfgv, list, async, owner, cur, qv, hist>>
RetReset(t) == /\ HasTop(t, {"reset"}) /\ Top(t).ph = 2 /\ Pop(t) /\ released' = released \cup {<<t, Top(t).h>>}
               /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, qv, order, connected, resetting>>

\* ---- the executor of async handlers
Prec(e, f) == (e.c = f.c /\ e.i < f.i) \/ e.c \in f.after \/ (e.h = f.h /\ e.i = 0)
ExecBegin(t, h, v) == /\ Stk(t) = <<>> /\ h \notin dead
                      /\ \E e \in queue : /\ e.h = h /\ e.v = v /\ \A f \in queue \ {e} : f.h \in dead \/ ~Prec(f, e)
                                          /\ queue' = {f \in queue \ {e} : f.h \notin dead} /\ fin' = fin \cap {f.c : f \in queue'}
                      /\ (\A u \in DOMAIN stk : ~(\E i \in 1..Len(stk[u]) : stk[u][i].op = "run" /\ stk[u][i].a = 2))
                      /\ Push(t, Frame("run", h, v, 2)) /\ UNCHANGED <<cfgv, list, async, dead, owner, cur, nch, hist>>
\* the system is at rest: everything handed to the executor has been executed or cancelled
Drained == (\A e \in queue : e.h \in dead) /\ stk = <<>> /\ UNCHANGED vars
------------------------------------------------------------------------------
\* properties
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Frames == UNION {Range(stk[t]) : t \in DOMAIN stk}
Invs == {f \in Frames : f.op \in {"inv", "set"}}
\* every invocation calls handlers in connection order, each at most once
OrderOnce == \A f \in Invs : \A i, j \in 1..Len(f.got) : i < j => Pos(order, f.got[i]) < Pos(order, f.got[j])
\* a finished invocation has reached every handler connected throughout
StkN(t) == IF t \in DOMAIN stk' THEN stk'[t] ELSE <<>>
Complete == [][\A t \in DOMAIN stk : (HasTop(t, {"inv", "set"}) /\ Len(stk[t]) > Len(StkN(t)))
                   => \A h \in Top(t).must \ resetting : h \in Range(Top(t).got)]_vars
\* ... and no handler whose disconnection was over before it started
NoneAfterRelease == [][\A kt \in released : \A t \in DOMAIN stk' :
      (guarded /\ Len(StkN(t)) > Len(Stk(t)) /\ StkN(t)[Len(StkN(t))].op = "run") => StkN(t)[Len(StkN(t))].h # kt[2]]_vars
Barrier == [][guarded => \A kt \in released' \ released : ~RunningElsewhere(kt[2], kt[1])]_vars
\* population happens before the handler can be notified
PopulateFirst == \A t \in DOMAIN stk : \A i \in 1..Len(stk[t]) : (stk[t][i].op = "conn" /\ stk[t][i].ph \in {1, 2}) => stk[t][i].h \notin Range(list)
MutexHeld == \A t \in DOMAIN stk : \A i \in 1..Len(stk[t]) : (stk[t][i].op \in {"conn", "set", "scs"} /\ stk[t][i].ph \in {1, 2}) => owner = t
=============================================================================

------------------------------- MODULE HeldTrace -------------------------------
EXTENDS Held, TraceCommon
TInit == TraceInit0 /\ Init0
TNext ==
  \/ Is("cfg") /\ Make(E.f, E.ty, E.v, E.n)
  \/ Is("set") /\ Set(E.i, E.ty, E.v, E.f, E.r, E.n)
  \/ Is("cpy") /\ Copy(E.i, E.j, E.f, E.r, E.n)
  \/ Is("mov") /\ Move(E.i, E.j, E.n)
  \/ Is("swp") /\ Swap(E.i, E.j, E.n)
  \/ Is("rst") /\ Reset(E.i, E.n)
  \/ Is("get") /\ Get(E.i, E.ty, E.r)
  \/ Is("whc") /\ Which(E.i, E.r)
  \/ Is("emp") /\ Empty(E.i, E.r)
  \/ Is("cmp") /\ Compare(E.i, E.j, E.eq, E.lt)
  \/ Is("vis") /\ Visit(E.i, E.ty, E.v)
  \/ Is("app") /\ Apply(E.i, E.r)
  \/ Is("vor") /\ ValueOr(E.i, E.d, E.r)
  \/ Is("die") /\ Die(E.n)
  \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================

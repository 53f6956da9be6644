-------------------------------- MODULE Feed --------------------------------
(* Data sources and what regroups them (aligner, taker, skipper, packets, mediator, interception): whatever amounts the consumer accepts, it is offered exactly *)
(* the bytes of the source that the chain lets through, in order, grouped as configured, and the end only after all of them.                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES exp,   \* what has to come out
          out,   \* bytes accepted by the consumer
          icp,   \* bytes reported by the interceptor
          kd,    \* [al: offers end at multiples of it, ps: offers are packets of this size (0: any), ic: intercepted]
          eod
vars == <<exp, out, icp, kd, eod>>
Min(a, b) == IF a < b THEN a ELSE b
\* chain: stages [w, a] from the source on
Stage(s, x) ==
  CASE x.w = "al" -> SubSeq(s, 1, (Len(s) \div x.a) * x.a)
    [] x.w = "tk" -> SubSeq(s, 1, Min(Len(s), x.a))
    [] x.w = "sk" -> SubSeq(s, Min(Len(s), x.a) + 1, Len(s))
    [] OTHER -> s
RECURSIVE Through(_, _)
Through(s, ch) == IF ch = <<>> THEN s ELSE Through(Stage(s, ch[1]), SubSeq(ch, 2, Len(ch)))
Init0 == exp = <<>> /\ out = <<>> /\ icp = <<>> /\ kd = [al |-> 1, ps |-> 0, ic |-> 0] /\ eod = 0
Make(k, d, ch) == kd' = k /\ exp' = Through(d, ch) /\ out' = <<>> /\ icp' = <<>> /\ eod' = 0
Offer(d, r) ==
  /\ eod = 0 /\ d # <<>> /\ Len(out) + Len(d) <= Len(exp) /\ d = SubSeq(exp, Len(out) + 1, Len(out) + Len(d))
  /\ (Len(out) + Len(d)) % kd.al = 0 /\ (kd.ps > 0 => Len(d) = kd.ps /\ r \in {0, kd.ps})
  /\ r \in 0..Len(d) /\ out' = out \o SubSeq(d, 1, r) /\ UNCHANGED <<exp, icp, kd, eod>>
Intercept(d) == kd.ic = 1 /\ icp' = icp \o d /\ icp' = out /\ UNCHANGED <<exp, out, kd, eod>>
Eod == eod = 0 /\ out = exp /\ eod' = 1 /\ UNCHANGED <<exp, out, icp, kd>>
End == out = exp /\ (kd.ic = 1 => icp = out) /\ UNCHANGED vars
------------------------------------------------------------------------------
InOrder == out = SubSeq(exp, 1, Len(out))
=============================================================================

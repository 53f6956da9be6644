------------------------------- MODULE FeedMC -------------------------------
(* The stages as machines - a source that keeps what was not accepted, then an aligner with its buffer, a taker or a skipper - offer what Feed demands. *)
EXTENDS Feed, TLC
CONSTANTS N, Stages
VARIABLES src,   \* bytes left in the source
          buf,   \* aligner: bytes waiting for the rest of their group
          rem,   \* aligner: the rest of a group being pushed out until it is accepted; taker, skipper: bytes to go
          st, bad
mv == <<vars, src, buf, rem, st, bad>>
Data == [i \in 1..N |-> i]
St(w, a) == [w |-> w, a |-> a]
SQ == {St("", 0), St("al", 2), St("al", 3), St("tk", 0), St("tk", 2), St("tk", 7), St("sk", 0), St("sk", 2), St("sk", 7)}
Init == \E s \in Stages : st = s /\ kd = [al |-> IF s.w = "al" THEN s.a ELSE 1, ps |-> 0, ic |-> 0] /\ exp = Through(Data, <<s>>) /\ out = <<>> /\ icp = <<>> /\ eod = 0
                            /\ src = Data /\ buf = <<>> /\ rem = (IF s.w \in {"tk", "sk"} THEN <<s.a>> ELSE <<>>) /\ bad = 0
Drop(s, n) == SubSeq(s, n + 1, Len(s))
\* offer d, of which the consumer takes r; keep is applied by the caller
Give(d, r) == IF ENABLED Offer(d, r) THEN Offer(d, r) /\ bad' = bad ELSE bad' = 1 /\ UNCHANGED vars
Plain == st.w = "" /\ src # <<>> /\ \E n \in 1..Len(src) : \E r \in 0..n : Give(SubSeq(src, 1, n), r) /\ src' = Drop(src, r) /\ UNCHANGED <<buf, rem, st>>
\* the aligner pushes groups out until they are accepted
Flush == st.w = "al" /\ rem # <<>> /\ \E r \in 0..Len(rem) : Give(rem, r) /\ rem' = Drop(rem, r) /\ UNCHANGED <<src, buf, st>>
Align ==
  /\ st.w = "al" /\ rem = <<>> /\ src # <<>> /\ UNCHANGED <<vars, st, bad>>
  /\ \E n \in 1..Len(src) :
       IF buf = <<>> THEN LET a == (n \div st.a) * st.a IN rem' = SubSeq(src, 1, a) /\ buf' = SubSeq(src, a + 1, n) /\ src' = Drop(src, n)
       ELSE LET o == Min(st.a - Len(buf), n) b == buf \o SubSeq(src, 1, o) IN src' = Drop(src, o) /\ IF Len(b) = st.a THEN rem' = b /\ buf' = <<>> ELSE buf' = b /\ UNCHANGED rem
Take == st.w = "tk" /\ rem[1] > 0 /\ src # <<>> /\ \E n \in 1..Len(src) : LET m == Min(n, rem[1]) IN \E r \in 0..m : Give(SubSeq(src, 1, m), r) /\ src' = Drop(src, r) /\ rem' = <<rem[1] - r>> /\ UNCHANGED <<buf, st>>
Skip == st.w = "sk" /\ src # <<>> /\ IF rem[1] > 0 THEN \E n \in 1..Len(src) : LET m == Min(n, rem[1]) IN src' = Drop(src, m) /\ rem' = <<rem[1] - m>> /\ UNCHANGED <<vars, buf, st, bad>>
                                  ELSE \E n \in 1..Len(src) : \E r \in 0..n : Give(SubSeq(src, 1, n), r) /\ src' = Drop(src, r) /\ UNCHANGED <<buf, rem, st>>
EndOf == eod = 0 /\ src = <<>> /\ (st.w = "al" => rem = <<>>) /\ (IF ENABLED Eod THEN Eod /\ bad' = bad ELSE bad' = 1 /\ UNCHANGED vars) /\ UNCHANGED <<src, buf, rem, st>>
Next == Plain \/ Flush \/ Align \/ Take \/ Skip \/ EndOf
Spec == Init /\ [][Next]_mv
Good == bad = 0
\* an aligner never withholds a whole group
Holds == st.w = "al" => Len(buf) < st.a
=============================================================================

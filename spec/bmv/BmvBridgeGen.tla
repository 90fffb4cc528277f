---------------------------- MODULE BmvBridgeGen ----------------------------
EXTENDS BmvBridge, TLC, Json, IOUtils
VARIABLES h, seq, hist, k, h0
R(S) == IF k > 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
RS(q) == q[R(DOMAIN q)]
RECURSIVE Evs(_, _)
Evs(s, n) == IF n = 0 THEN << >> ELSE <<[s |-> s, m |-> R(1..9)]>> \o Evs(IF R(1..9) = 1 THEN s + RS(<<0, -1, 2>>) ELSE s + 1, n - 1)
RECURSIVE Rcs(_, _, _)
Rcs(hh, s, n) == IF n = 0 THEN << >>
  ELSE LET m == RS(<<0, 1, 1, 2, 3, 5>>)
           x == IF R(1..12) = 1 THEN (IF hh > 1 THEN hh - 1 ELSE hh) ELSE hh
       IN <<[h |-> x, es |-> Evs(IF R(1..14) = 1 THEN s + RS(<<1, -1, -2>>) ELSE s, m)]>> \o Rcs(hh + R(0..3), s + m, n - 1)
Op == LET back == R(0..2) IN
  [by |-> IF R(1..20) = 1 THEN "other" ELSE "bmc", cur |-> IF R(1..20) = 1 THEN RS(<<"other", "junk">>) ELSE "bmc",
   prev |-> IF R(1..20) = 1 THEN RS(<<"other", "longer", "junk">>) ELSE "src", seq |-> seq,
   dam |-> IF R(1..20) = 1 THEN RS(<<"cut", "type">>) ELSE "none",
   rs |-> Rcs(h + RS(<<0, 0, 1, 5, 100>>), IF R(1..3) = 1 /\ seq > back THEN seq + 1 - back ELSE seq + 1, RS(<<0, 1, 1, 2, 3>>))]
Init == k \in 1..1 /\ h = 0 /\ h0 = 0 /\ seq = -1 /\ hist = << >>
Make == seq = -1 /\ \E x \in {RS(<<0, 1, 7, 100000>>)} : h' = x /\ h0' = x /\ seq' = 0 /\ UNCHANGED <<hist, k>>
Go == seq # -1 /\ \E o \in {Op} : LET r == Relay(h, o)
  IN h' = r.h /\ seq' = seq + Len(r.ms) /\ hist' = Append(hist, o) /\ UNCHANGED <<k, h0>>
Next == Make \/ Go
MaxOps == atoi(IOEnv.GENLEN)
Say == Len(hist) >= MaxOps => PrintT("SCN" \o ToJson([c |-> h0, ops |-> hist]))
Stop == Len(hist) < MaxOps
Spec == Init /\ [][Next]_<<h, seq, hist, k, h0>>
=============================================================================

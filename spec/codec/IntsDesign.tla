----------------------------- MODULE IntsDesign -----------------------------
(* The representations are faithful: exhaustive for all byte strings of up to  *)
(* N bytes of the interesting values; and generator of such strings.           *)
EXTENDS Ints, TLC, Json
CONSTANTS B, N, Fill, M, Emitting
VARIABLES b, done
vars == <<b, done>>
Init == b = <<>> /\ done = FALSE
Grow == ~done /\ Len(b) < N /\ \E x \in B : b' = Append(b, x) /\ UNCHANGED done
\* longer ones: a run of one value in the middle
Stretch == ~done /\ Len(b) >= 2 /\ \E x \in Fill, n \in M :
             /\ b' = SubSeq(b, 1, Len(b) - 1) \o [i \in 1..n |-> x] \o <<b[Len(b)]>>
             /\ done' = TRUE
Next == Grow \/ Stretch
Spec == Init /\ [][Next]_vars
Faithful == LET v == OfTwos(b) IN
  /\ OfTwos(Twos(v)) = v
  /\ Len(Twos(v)) <= IF b = <<>> THEN 1 ELSE Len(b)
  /\ OfTwos(<<IF v.neg THEN 255 ELSE 0>> \o b) = v
  /\ IsNum(Text(v)) /\ NumOf(Text(v)) = v
  /\ Neg(Neg(v)) = v
  /\ \A n \in 1..3 : FitsUint(v, n) => FitsInt(v, n + 1)
Emit == Emitting => PrintT("SCN" \o ToJson([b |-> b]))
=============================================================================

------------------------------ MODULE TextGen -------------------------------
(* Texts handed to the parsers: sign, prefix, leading zeros, digits of either  *)
(* case and length around every width, and a foreign character anywhere.       *)
EXTENDS Ints, TLC, Json
CONSTANTS Pre, Lead, Len1, Bad
VARIABLES s, k
Pres == {<<>>, <<48, 120>>, <<45, 48, 120>>, <<45>>, <<48, 88>>, <<43, 48, 120>>, <<45, 45, 48, 120>>}
Txt == s
Init == \E p \in Pre : s = p /\ k = 0
Body == k = 0 /\ \E z \in {0, 1, 5}, h \in Lead, n \in Len1, f \in {48, 102, 70} :
          s' = s \o [i \in 1..z |-> 48] \o <<h>> \o [i \in 1..n |-> f] /\ k' = 1
Spoil == k = 1 /\ Len(s) < 12 /\ \E i \in 0..Len(s), c \in Bad : s' = SubSeq(s, 1, i) \o <<c>> \o SubSeq(s, i + 1, Len(s)) /\ k' = 2
Next == Body \/ Spoil
Spec == Init /\ [][Next]_<<s, k>>
Emit == PrintT("SCN" \o ToJson([s |-> s, k |-> k]))
=============================================================================

------------------------------- MODULE RLPGen -------------------------------
(* Schemas: types of the values to be encoded.                                 *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D
VARIABLES s, d
K(k) == [k |-> k]
Ints1 == {[k |-> k, w |-> w] : k \in {"int", "uint"}, w \in {1, 2, 4, 8}}
Arrs == {[k |-> "arr", n |-> n] : n \in {0, 1, 4, 60}}
Self1 == {[k |-> "self", f |-> <<[k |-> "int", w |-> 8], K("b")>>, go |-> "pair"],
          [k |-> "self", f |-> <<K("str"), [k |-> "uint", w |-> 2], K("b")>>, go |-> "trip"],
          [k |-> "self", f |-> <<[k |-> "self", f |-> <<[k |-> "int", w |-> 8]>>], [k |-> "self", f |-> <<K("b")>>], K("str")>>, go |-> "nest"]}
Emb == {[k |-> "struct", f |-> <<[k |-> "int", w |-> 1], K("b"), K("str")>>, go |-> "emb"]}
Hex == {[k |-> "int", w |-> w, go |-> "hex"] : w \in {2, 4, 8}} \cup {[k |-> "uint", w |-> w, go |-> "hex"] : w \in {2, 4, 8}}
Prim == Ints1 \cup Arrs \cup Self1 \cup Emb \cup Hex \cup {K("bool"), K("str"), K("b"), K("big"), K("addr")}
Go(x) == "go" \in DOMAIN x
Plain8(x) == x.k = "uint" /\ x.w = 1          \* a list of these is a byte string
RECURSIVE NeedsAddr(_)
NeedsAddr(x) == Go(x) \/ x.k \in {"big", "addr"} \/ (x.k = "larr" /\ NeedsAddr(x.e))
                \/ (x.k = "struct" /\ \E i \in 1..Len(x.f) : NeedsAddr(x.f[i]))
Keys == {K("str"), [k |-> "int", w |-> 2], [k |-> "int", w |-> 8], [k |-> "uint", w |-> 8], [k |-> "uint", w |-> 1]}
Init == s \in Prim /\ d = 0
Wrap ==
  \/ ~Plain8(s) /\ s' = [k |-> "list", e |-> s]
  \/ ~Plain8(s) /\ \E n \in {0, 2, 5} : s' = [k |-> "larr", n |-> n, e |-> s]
  \/ s.k \notin {"ptr", "list", "map", "b"} /\ s' = [k |-> "ptr", e |-> s]
  \/ ~NeedsAddr(s) /\ \E k \in Keys : s' = [k |-> "map", key |-> k, e |-> s]
  \/ \E p \in Prim : s' = [k |-> "struct", f |-> <<s, p>>]
  \/ \E p \in Prim, q \in Prim : s' = [k |-> "struct", f |-> <<p, s, q>>]
  \/ s' = [k |-> "struct", f |-> <<s, s>>]
Next == d < D /\ Wrap /\ d' = d + 1
Spec == Init /\ [][Next]_<<s, d>>
Emit == PrintT("SCN" \o ToJson(s))
=============================================================================

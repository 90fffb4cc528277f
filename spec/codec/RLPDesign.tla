----------------------------- MODULE RLPDesign ------------------------------
(* Reading gives back what was written, for all values of a set of schemas     *)
(* over small domains, and no proper prefix of it can be read.                 *)
EXTENDS RLP, TLC, FiniteSets
CONSTANTS Deep
Mags == {<<>>, <<1>>, <<127>>, <<128>>, <<255>>, <<1, 0>>}
IntVals == {IntOf(g, m) : g \in BOOLEAN, m \in Mags}
Fill(n, x) == [i \in 1..n |-> x]
Byt == {<<>>, <<0>>, <<127>>, <<128>>, <<248, 0>>} \cup {Fill(n, 130) : n \in {54, 55, 56}}
P(k) == [k |-> k]
Schemas == {[k |-> "int", w |-> 2], [k |-> "uint", w |-> 1], P("bool"), P("str"), P("b"), P("big"),
            [k |-> "ptr", e |-> P("str")]}
RECURSIVE Vals(_)
Vals(s) == CASE s.k = "int" -> {I(v) : v \in {x \in IntVals : FitsInt(x, s.w)}}
             [] s.k = "uint" -> {I(v) : v \in {x \in IntVals : FitsUint(x, s.w)}}
             [] s.k = "big" -> {I(v) : v \in IntVals}
             [] s.k = "bool" -> {[t |-> "bool", x |-> x] : x \in BOOLEAN}
             [] s.k = "str" -> {B(b) : b \in Byt}
             [] s.k = "b" -> {B(b) : b \in Byt} \cup {Nil}
             [] s.k = "ptr" -> Vals(s.e) \cup {Nil}
VARIABLES s, v
Init == s \in Schemas /\ v \in Vals(s)
Wrap1 == s.k # "struct" /\ s.k # "list" /\
         \/ \E q \in Schemas : \E w \in Vals(q) : s' = [k |-> "struct", f |-> <<s, q>>] /\ v' = L(<<v, w>>)
         \/ s' = [k |-> "list", e |-> s] /\ v' \in {L(<<>>), L(<<v>>), L(<<v, v>>)} \cup {Nil}
Wrap2 == Deep /\ s.k = "struct" /\ Len(s.f) = 2 /\
         \E q \in {P("b"), [k |-> "int", w |-> 2]} : \E w \in Vals(q) :
            s' = [k |-> "struct", f |-> <<q, s, q>>] /\ v' = L(<<w, v, w>>)
Next == Wrap1 \/ Wrap2
Spec == Init /\ [][Next]_<<s, v>>
E1 == Enc(v)
RoundTrip == LET r == Dec(s, E1) IN
  IF v = Nil /\ ~NilOk(s) THEN r.st = "err" ELSE r.st = "ok" /\ r.v = v /\ r.nx = Len(E1) + 1
Prefix == \A n \in 0..(Len(E1) - 1) : Dec(s, SubSeq(E1, 1, n)).st = "err"
Suffix == LET r == Dec(s, E1 \o <<5>>) IN ~(v = Nil /\ ~NilOk(s)) => r.st = "ok" /\ r.v = v /\ r.nx = Len(E1) + 1
=============================================================================

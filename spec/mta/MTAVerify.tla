----------------------------- MODULE MTAVerify -----------------------------
(* Design check of verification across lengths: n verifies a witness made at wl *)
EXTENDS MTA
CONSTANTS MaxLen, AtkLen
VARIABLES n, wl, ws, h, honest
vars == <<n, wl, ws, h, honest>>
Blocks(m) == {<<lo * 2 ^ k, 2 ^ k>> : lo \in 0..m, k \in 0..3}
Init == /\ n \in 1..MaxLen /\ wl \in 1..MaxLen /\ honest = TRUE
        /\ \E i \in 0..(wl - 1) : ws = Witness(i, wl) /\ h = Leaf(i)
\* the attacker replaces one element, changes the length, or presents another hash
Attack == /\ honest /\ n <= AtkLen /\ wl <= AtkLen /\ honest' = FALSE /\ UNCHANGED <<n, wl>>
          /\ \/ \E b \in Blocks(AtkLen) : h' = b /\ ws' = ws
             \/ \E k \in 1..Len(ws), b \in Blocks(AtkLen), d \in {"L", "R"} :
                   ws' = [ws EXCEPT ![k] = [d |-> d, v |-> b]] /\ \E j \in 0..AtkLen : h' = Leaf(j)
             \/ \E k \in 0..Len(ws) : ws' = SubSeq(ws, 1, k) /\ \E b \in Blocks(AtkLen) : h' = b
             \/ \E b \in Blocks(AtkLen), d \in {"L", "R"} : ws' = Append(ws, [d |-> d, v |-> b]) /\ h' = h
Spec == Init /\ [][Attack]_vars
Complete == honest /\ h[1] < n => VerifyAt(n, ws, h, wl)
Newer    == honest /\ h[1] >= n => ~VerifyAt(n, ws, h, wl)
Sound    == VerifyAt(n, ws, h, wl) => IsLeafOf(h, n)
=============================================================================

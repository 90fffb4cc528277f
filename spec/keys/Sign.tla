-------------------------------- MODULE Sign --------------------------------
(* Signatures as terms: who signed what, and what became of their three parts. *)
(* v: "v" right, "x" the other one, "big" none of the four, "no" not there.    *)
(* r: TRUE if intact.  s: "s" intact, "neg" the other root (n - s), "bad".     *)
EXTENDS Naturals, Sequences
Sig(k, m) == [k |-> k, m |-> m, v |-> "v", r |-> TRUE, s |-> "s"]
Flip(v) == IF v = "v" THEN "x" ELSE IF v = "x" THEN "v" ELSE v
Hurt(g, p) == CASE p = "v" -> [g EXCEPT !.v = Flip(@)]
                [] p = "big" -> [g EXCEPT !.v = IF @ = "no" THEN @ ELSE "big"]
                [] p = "r" -> [g EXCEPT !.r = FALSE]
                [] p = "s" -> [g EXCEPT !.s = "bad"]
                [] p = "neg" -> [g EXCEPT !.s = IF @ = "s" THEN "neg" ELSE IF @ = "neg" THEN "s" ELSE @]
Conv(g, f) == IF f = "rs" THEN [g EXCEPT !.v = "no"] ELSE g
CanConv(g, f) == f = "rs" \/ g.v # "no"
Other == "other"
\* the public keys a recovery may give: "err", "other", or a key
Recover(g, m) == IF g.v = "no" THEN {"err"}
                 ELSE IF g.v = "big" THEN {"err", Other, g.k}
                 ELSE IF g.m = m /\ g.r /\ <<g.s, g.v>> \in {<<"s", "v">>, <<"neg", "x">>} THEN {g.k}
                 ELSE {"err", Other}
\* only the low root is a signature
Verify(g, m, k) == g.r /\ g.s = "s" /\ g.v = "v" /\ g.m = m /\ g.k = k
=============================================================================

----------------------------- MODULE SignDesign -----------------------------
(* All histories of a signature; also the generator of the histories replayed. *)
EXTENDS Sign, TLC, Json
CONSTANTS Keys, Msgs, Depth, Emitting
VARIABLES g, k, m, hist
Init == k \in Keys /\ m \in Msgs /\ g = Sig(k, m) /\ \E src \in {"lib", "wallet", "eth"} : hist = <<[op |-> "sign", x |-> src]>>
Next == /\ Len(hist) <= Depth
        /\ \/ \E f \in {"rs", "rsv", "vrs"} : CanConv(g, f) /\ g' = Conv(g, f) /\ hist' = Append(hist, [op |-> "conv", x |-> f])
           \/ \E p \in {"v", "big", "r", "s", "neg"} : g' = Hurt(g, p) /\ hist' = Append(hist, [op |-> "hurt", x |-> p])
           \/ (g.v = "no" /\ \E f \in {"rsv", "vrs"} : g' = g /\ hist' = Append(hist, [op |-> "conv", x |-> f]))
        /\ UNCHANGED <<k, m>>
Spec == Init /\ [][Next]_<<g, k, m, hist>>
\* what is verified can only be what was signed, and recovering agrees with verifying
Sound == \A kk \in Keys, mm \in Msgs : Verify(g, mm, kk) => kk = k /\ mm = m /\ Recover(g, mm) = {k}
One == \A mm \in Msgs : \A kk \in Keys : (kk \in Recover(g, mm)) => kk = k
Whole == (\A i \in 1..Len(hist) : hist[i].op # "hurt") => (Verify(g, m, k) <=> g.v # "no")
Emit == (Emitting /\ Len(hist) = Depth + 1) => PrintT("SCN" \o ToJson([k |-> k, m |-> m, h |-> hist]))
=============================================================================

----------------------------- MODULE MonDesign ------------------------------
(* Design of a monitor: the node pushes, the connection holds what is under     *)
(* way, the subscriber takes one after the other.                               *)
EXTENDS Mon, TLC, Json
CONSTANTS N, Emitting
VARIABLES kind, feed, at, wire, sent, got, st
vars == <<kind, feed, at, wire, sent, got, st>>
Tails == {<<e>> : e \in {"g", "normal", "going", "drop"}}
Feeds == {[i \in 1..n |-> "n"] \o e : n \in 0..N, e \in Tails}
Init == /\ kind \in {"btp", "block", "event"} /\ feed \in Feeds /\ at \in 0..N
        /\ wire = <<>> /\ sent = 0 /\ got = 0 /\ st = "run"
Push == sent < Len(feed) /\ sent' = sent + 1 /\ wire' = Append(wire, feed[sent + 1]) /\ UNCHANGED <<kind, feed, at, got, st>>
Take == /\ st = "run" /\ wire # <<>>
        /\ IF Head(wire) = "n" THEN /\ got' = got + 1
                                    /\ st' = IF kind = "btp" /\ got + 1 = at THEN "cb" ELSE "run"
           ELSE got' = got /\ st' = "err"
        /\ wire' = Tail(wire) /\ UNCHANGED <<kind, feed, at, sent>>
Next == Push \/ Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == st # "run" => got = Count(kind, feed, at) /\ st = Ends(kind, feed, at)
Over == <>(st # "run")
Emit == (Emitting /\ sent = 0) => PrintT("SCN" \o ToJson([kind |-> kind, feed |-> feed, at |-> at]))
=============================================================================

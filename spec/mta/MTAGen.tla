------------------------------- MODULE MTAGen -------------------------------
(* Histories of the accumulator for replay: additions, flushes, flushes that    *)
(* fail or crash at the k-th write, restarts.                                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT D
VARIABLE hist
Ops == {[op |-> "add", kind |-> "data", k |-> 0], [op |-> "add", kind |-> "hash", k |-> 0],
        [op |-> "flush", kind |-> "", k |-> 0], [op |-> "reopen", kind |-> "", k |-> 0]}
       \cup {[op |-> "flusherr", kind |-> "", k |-> k] : k \in 0..4}
       \cup {[op |-> "crash", kind |-> "", k |-> k] : k \in 0..4}
\* additions are as likely as everything else together
Init == hist = <<>>
Next == Len(hist) < D /\
        \/ \E o \in Ops : hist' = Append(hist, o)
        \/ \E n \in 1..5 : hist' = hist \o [i \in 1..n |-> [op |-> "add", kind |-> "data", k |-> 0]]
Spec == Init /\ [][Next]_hist
Emit == Len(hist) >= D => PrintT("SCN" \o ToJson(hist))
=============================================================================

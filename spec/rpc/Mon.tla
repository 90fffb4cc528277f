-------------------------------- MODULE Mon ---------------------------------
(* Subscriptions.  feed: what the node does after the subscription; the         *)
(* subscriber's callback fails at its failAt-th call (0: never).                *)
(* "n" a notification, "g" garbage, then one of the ends: "normal" and          *)
(* "going" close frames, "drop" of the connection, "hang" nothing more.         *)
EXTENDS Integers, Sequences
Upto(f) == LET p == {i \in 1..Len(f) : f[i] # "n"} IN
           IF p = {} THEN Len(f) ELSE (CHOOSE i \in p : \A j \in p : i <= j) - 1
\* only a monitor of BTP blocks stops at a failing callback
Stops(kind, f, at) == kind = "btp" /\ at > 0 /\ at <= Upto(f)
Count(kind, f, at) == IF Stops(kind, f, at) THEN at ELSE Upto(f)
EndOf(f) == IF Upto(f) < Len(f) THEN f[Upto(f) + 1] ELSE "hang"
\* what ends the monitor: "cb" the callback's error, "err" another one
Ends(kind, f, at) == IF Stops(kind, f, at) THEN "cb" ELSE "err"
Told(kind, f, at) == ~Stops(kind, f, at) /\ EndOf(f) # "normal"
=============================================================================

---------------------------- MODULE ErrsDesign ------------------------------
EXTENDS Errs, TLC, Json
CONSTANTS Codes, Depth, Emitting
VARIABLE h
Step(op) == IF op \in Coded THEN {[op |-> op, code |-> c] : c \in Codes} ELSE {[op |-> op, code |-> 0]}
Init == \E op \in Bases : \E s \in Step(op) : h = <<s>>
Next == Len(h) < Depth /\ \E op \in Layers : \E s \in Step(op) : h' = Append(h, s)
Spec == Init /\ [][Next]_h
\* a layer without a code keeps the code, one with a code sets it
Keeps == [][CodeOf(h') = IF h'[Len(h')].op \in Coded THEN h'[Len(h')].code ELSE CodeOf(h)]_h
Told == CodeOf(h) \in Codes \cup {0} /\ (CodeOf(h) # 0 => HasCode(h)) /\ Text(h) \in 1..Len(h)
Emit == (Emitting /\ Len(h) = Depth) => PrintT("SCN" \o ToJson(h))
=============================================================================

---------------------------- MODULE StoreDesign -----------------------------
EXTENDS Store, TLC, Json, FiniteSets
CONSTANTS Keys, Pws, MaxDmg, Emitting
VARIABLES s, hist, opened
Init == /\ \E k \in Keys, pw \in Pws, w \in {"icx", "own", "evm", "none", "pbkdf2", "geth"} :
             s = [k |-> k, pw |-> pw, coin |-> IF w \in {"icx", "own"} THEN "icx" ELSE "evm", dmg |-> {}, w |-> w]
        /\ hist = <<>> /\ opened = {}
Damage == /\ Cardinality(s.dmg) < MaxDmg
          /\ \E d \in Damages(s.coin) \ s.dmg : s' = [s EXCEPT !.dmg = @ \cup {d}] /\ hist' = Append(hist, d)
          /\ opened' = {}
Open == \E pw \in Pws : opened' = opened \cup (IF Opens(s, pw) THEN {<<pw, s.k>>} ELSE {}) /\ UNCHANGED <<s, hist>>
Next == Damage \/ Open
Spec == Init /\ [][Next]_<<s, hist, opened>>
OnlyWithPassword == \A o \in opened : o = <<s.pw, s.k>>
Emit == (Emitting /\ opened = {}) => PrintT("SCN" \o ToJson([k |-> s.k, pw |-> s.pw, w |-> s.w, d |-> hist]))
=============================================================================

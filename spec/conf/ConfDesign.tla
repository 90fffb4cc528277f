----------------------------- MODULE ConfDesign -----------------------------
EXTENDS Conf, TLC, Json
CONSTANTS MaxPut, MaxSave, Emitting, Use
VARIABLES file, o, h, old
vars == <<file, o, h, old>>
Init == file = Fresh /\ o = <<>> /\ h = <<>> /\ old = Fresh
Froms == {"flag", "env"}
Put == /\ Len(o) < MaxPut /\ Len(h) < MaxSave
       /\ \E s \in Use, from \in Froms : /\ Get(o, from, s) = <<>>
              /\ \E v \in Values(s, from) : o' = Append(o, [s |-> s, from |-> from, v |-> v])
       /\ UNCHANGED <<file, h, old>>
Save == /\ Len(h) < MaxSave
        /\ IF ~Emitting THEN h' = Append(h, 0) ELSE \E w \in {"w1", "w2"}, d \in {"d1", "d2"}, c \in {"flag", "env", "abs"}, rel \in BOOLEAN :
             h' = Append(h, [o |-> o, cwd |-> w, dir |-> d, cfg |-> c, rel |-> rel])
        /\ old' = file /\ file' = (IF Ok(file, o) THEN After(file, o) ELSE file) /\ o' = <<>>
Next == Put \/ Save
Spec == Init /\ [][Next]_vars
\* what is not given keeps its meaning, what is given counts
Kept == [][h' # h => \A s \in Settings \ (Keys \cup Secrets) :
                       LET g == {i \in 1..Len(o) : o[i].s = s} IN
                       /\ (g = {} => file'[s] = file[s])
                       /\ (Ok(file, o) => \A i \in g : o[i].from = "flag" => file'[s] = o[i].v)]_vars
\* passwords are never written, a store never changes its password
Safe == /\ file["src.key_password"] = None /\ file["dst.key_password"] = None
        /\ (Len(h) > 0 /\ file # Fresh => file["src.key_store"] # None)
Emit == (Emitting /\ Len(h) > 0) => PrintT("SCN" \o ToJson(h))
=============================================================================

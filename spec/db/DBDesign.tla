------------------------------ MODULE DBDesign ------------------------------
EXTENDS DB, Json
CONSTANTS Vals, Layers, D
VARIABLES hist, ghost     \* ghost: the view through the top level, kept separately
vars == <<lv, hist, ghost>>
Init == lv = <<RealInit>> \o [i \in 1..Layers |-> LayerInit] /\ hist = <<>>
        /\ ghost = [b \in Buckets |-> [k \in Keys |-> Absent]]
H(r) == hist' = Append(hist, r)
Top == Layers
Ev(op, i, b, k, v) == [op |-> op, i |-> i, b |-> b, k |-> k, v |-> v]
Set == \E i \in 0..Layers, b \in Buckets, k \in Keys, v \in Vals :
         /\ Write(i, b, k, v) /\ H(Ev("set", i, b, k, v))
         /\ ghost' = IF i = Top THEN [ghost EXCEPT ![b][k] = v] ELSE [bb \in Buckets |-> [kk \in Keys |-> View(lv', Top + 1, bb, kk)]]
Del == \E i \in 0..Layers, b \in Buckets, k \in Keys :
         /\ Write(i, b, k, Absent) /\ H(Ev("del", i, b, k, ""))
         /\ ghost' = IF i = Top THEN [ghost EXCEPT ![b][k] = Absent] ELSE [bb \in Buckets |-> [kk \in Keys |-> View(lv', Top + 1, bb, kk)]]
Flush == \E i \in 1..Layers, w \in BOOLEAN :
         /\ FlushTo(i, w) /\ H(Ev(IF w THEN "flush" ELSE "discard", i, "", "", ""))
         /\ ghost' = IF w THEN ghost ELSE [bb \in Buckets |-> [kk \in Keys |-> View(lv', Top + 1, bb, kk)]]
FlushErr == \E i \in 1..Layers : FlushFails(i) /\ H(Ev("flusherr", i, "", "", "")) /\ UNCHANGED ghost
Reopen == /\ lv' = <<lv[1]>> \o [i \in 1..Layers |-> LayerInit] /\ H(Ev("reopen", 0, "", "", ""))
          /\ ghost' = lv[1].data
Next == Len(hist) < D /\ (Set \/ Del \/ Flush \/ FlushErr \/ Reopen)
Spec == Init /\ [][Next]_vars
\* flushing (even one that fails half-way) never changes what is seen through the layer
ViewStable == \A b \in Buckets, k \in Keys : View(lv, Top + 1, b, k) = ghost[b][k]
RealClean == \A b \in Buckets, k \in Keys : lv[1].data[b][k] # None
Hide == lv
Emit == Len(hist) >= D => PrintT("SCN" \o ToJson(hist))
=============================================================================

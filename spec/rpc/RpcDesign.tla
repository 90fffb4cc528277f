----------------------------- MODULE RpcDesign ------------------------------
EXTENDS Rpc, TLC, Json
CONSTANT Emitting
VARIABLES s, t, b
Init == s \in Statuses /\ t \in Types /\ b \in Bodies
Next == UNCHANGED <<s, t, b>>
Spec == Init /\ [][Next]_<<s, t, b>>
\* never a result out of anything but a complete answer that says so
Sound == /\ (Outcome(s, t, b) = "result" <=> s = 200 /\ b = "result")
         /\ (Outcome(s, t, b) = "none" => s = 200)
         /\ (b \in {"error", "errordata", "both"} => Outcome(s, t, b) \in {"rpcerr", "http"})
Emit == Emitting => PrintT("SCN" \o ToJson([s |-> s, t |-> t, b |-> b]))
=============================================================================

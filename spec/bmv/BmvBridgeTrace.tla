--------------------------- MODULE BmvBridgeTrace ---------------------------
EXTENDS BmvBridge, TraceKit
VARIABLE h
Deploy == Ev.e = "deploy" /\ h' = Ev.h /\ Ev.height = Ev.h
Step == /\ Ev.e = "relay"
        /\ LET r == Relay(h, Ev.o)
           IN /\ (Ev.code = -1) = r.ok
              /\ r.ok => Ev.ms = r.ms
              /\ ~r.ok => r.codes = {-100} \/ Ev.code \in r.codes
              /\ h' = r.h
        /\ Ev.height = h'
Init == TKInit /\ h = 0
Next == TKStep /\ (Deploy \/ Step)
Spec == Init /\ [][Next]_<<sc, l, h>>
=============================================================================

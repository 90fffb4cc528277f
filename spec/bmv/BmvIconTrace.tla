---------------------------- MODULE BmvIconTrace ----------------------------
EXTENDS BmvIcon, TraceKit
VARIABLES c, st
Obs(cc, s) == <<cc.off + Len(s.acc), cc.off, s.lh>>
Deploy == Ev.e = "deploy" /\ c' = Ev.c /\ st' = Start(Ev.c) /\ Ev.obs = Obs(c', st')
Step == /\ Ev.e = "relay"
        /\ LET r == Relay(c, st, Ev.o)
           IN /\ (Ev.code = -1) = r.ok
              /\ r.ok => Ev.ms = r.ms
              /\ ~r.ok => Refused \in r.codes \/ Ev.code \in r.codes
              /\ st' = r.st
        /\ Ev.obs = Obs(c, st') /\ UNCHANGED c
Init == TKInit /\ c = [off |-> 0] /\ st = [acc |-> << >>]
Next == TKStep /\ (Deploy \/ Step)
Spec == Init /\ [][Next]_<<sc, l, c, st>>
=============================================================================

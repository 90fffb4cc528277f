---------------------------- MODULE BmvBtpTrace ----------------------------
EXTENDS BmvBtp, TraceKit

VARIABLES c, s
Obs(cc, ss) == <<Height(ss.b), cc.off, First(cc, ss.b), cc.blocks[ss.b].m>>
Deploy ==
  /\ Ev.e = "deploy"
  /\ c' = Ev.c /\ s' = Start(Ev.c)
  /\ Deployable(Ev.c) <=> (Ev.code = -1)
  /\ Ev.code = -1 => Ev.obs = Obs(Ev.c, Start(Ev.c))
Refused(x) == /\ Ev.code # -1
              /\ x.codes = AnyCode \/ Ev.code \in x.codes
              /\ s' = s
Taken(x) == /\ Ev.code = -1
            /\ Ev.ms = x.ms
            /\ s' = x.s
Step ==
  /\ Ev.e = "relay"
  /\ LET x == Relay(c, s, Ev.o, Len(Ev.ms))
     IN CASE x.r = "no" -> Refused(x) [] x.r = "ok" -> Taken(x) [] OTHER -> Refused(x) \/ Taken(x)
  /\ Ev.obs = Obs(c, s')
  /\ c' = c

Init == TKInit /\ c = 0 /\ s = 0
Next == TKStep /\ (Deploy \/ Step)
Spec == Init /\ [][Next]_<<sc, l, c, s>>
=============================================================================

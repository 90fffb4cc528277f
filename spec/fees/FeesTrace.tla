----------------------------- MODULE FeesTrace -----------------------------
EXTENDS Fees, TraceKit
VARIABLE s
Step ==
  \E r \in {Do(s, Ev.o)} :
  /\ Ev.ok = r.ok
  /\ ~r.ok => (r.code = 0 \/ Ev.code = r.code)
  /\ Ev.ev = r.ev
  /\ Ev.hook = r.hook
  /\ Ev.obs = Obs(r.s)
  /\ s' = r.s
Init == TKInit /\ s = Start0
Next == TKStep /\ Step
Spec == Init /\ [][Next]_<<sc, l, s>>
=============================================================================

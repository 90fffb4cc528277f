----------------------------- MODULE XcallTrace -----------------------------
EXTENDS Xcall, TraceKit

VARIABLE w
Bag(q) == {q[i] : i \in DOMAIN q}
Step ==
  \E r \in {Do(w, Ev.o)} :
  /\ Ev.ok = r.ok
  /\ Bag(Ev.ev) = r.ev /\ Len(Ev.ev) = Cardinality(r.ev)
  /\ Ev.calls = r.calls
  /\ Ev.sent = r.sent
  /\ (Ev.o.op = "send" /\ r.ok) => Ev.ret = r.ret
  /\ \A n \in Nets : Ev.obs[n] = Obs(r.w, n)
  /\ w' = r.w
Init == TKInit /\ w = World0
Next == TKStep /\ Step
Spec == Init /\ [][Next]_<<sc, l, w>>
=============================================================================

----------------------------- MODULE CoinTrace -----------------------------
EXTENDS Coin, TraceKit

VARIABLE w
Same(a, b) == /\ \A f \in DOMAIN b \ {"owners"} : a[f] = b[f]
              /\ {a.owners[i] : i \in DOMAIN a.owners} = b.owners /\ Len(a.owners) = Cardinality(b.owners)
Step ==
  \E r \in {Do(w, Ev.o)} :
  /\ Ev.ok = r.ok
  /\ Ev.ev = r.ev
  /\ Ev.sent = r.sent
  /\ Ev.hook = r.hook
  /\ Same(Ev.obs, Obs(r.w, Ev.o.n))
  /\ w' = r.w
Init == TKInit /\ w = World0
Next == TKStep /\ Step
Spec == Init /\ [][Next]_<<sc, l, w>>
=============================================================================

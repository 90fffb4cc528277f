----------------------------- MODULE StoreTrace -----------------------------
EXTENDS Store, TraceKit
VARIABLE s
Init == TKInit /\ s = [k |-> "", pw |-> "", coin |-> "", dmg |-> {}]
Same == UNCHANGED s
Step(ev) == ev.panic = "" /\
  CASE ev.op = "make" -> ev.ok /\ s' = [k |-> ev.k, pw |-> ev.pw, coin |-> ev.coin, dmg |-> {}]
    [] ev.op = "hurt" -> s' = [s EXCEPT !.dmg = @ \cup {ev.d}]
    \* what opens is the key that was stored, with its address, and it can sign
    [] ev.op = "open" -> Same /\ IF Opens(s, ev.pw) THEN ev.ok /\ ev.k = s.k /\ ev.addr /\ ev.pub /\ (s.coin = "icx" => ev.sig)
                                 ELSE ~ev.ok
    \* somebody else's reader of key stores opens it as well
    [] ev.op = "peer" -> Same /\ ev.ok = (ev.pw = s.pw) /\ (ev.ok => ev.k = s.k)
    [] ev.op = "addr" -> Same /\ IF s.coin # "icx" \/ s.dmg \cap {"coin", "cut", "empty", "type"} # {} THEN ~ev.ok
                                 ELSE IF s.dmg \cap {"addr", "noaddr", "kind"} # {} THEN TRUE
                                 ELSE s.dmg \cap Fatal("icx") = {} => ev.ok /\ ev.same
    [] OTHER -> FALSE
Next == TKStep /\ Step(Ev)
Spec == Init /\ [][Next]_<<sc, l, s>>
=============================================================================

----------------------------- MODULE SignTrace ------------------------------
EXTENDS Sign, TraceKit
VARIABLE g
Init == TKInit /\ g = Sig("none", "none")
Same == UNCHANGED g
Step(ev) == ev.panic = "" /\
  CASE ev.op = "sign" -> ev.ok /\ g' = Sig(ev.k, ev.m)
    [] ev.op = "badsign" -> Same /\ ~ev.ok               \* nothing to sign, or too long
    [] ev.op = "conv" -> IF CanConv(g, ev.x) THEN ev.ok /\ g' = Conv(g, ev.x) /\ ev.hasv = (g'.v # "no")
                         ELSE ~ev.ok /\ Same
    [] ev.op = "hurt" -> g' = Hurt(g, ev.x)
    [] ev.op = "verify" -> Same /\ ev.ok = Verify(g, ev.m, ev.k)
    [] ev.op = "recover" -> Same /\ ev.res \in Recover(g, ev.m)
    [] ev.op = "eth" -> Same /\ (g.v # "big" => ev.res \in Recover(g, ev.m))
    [] ev.op = "pub" -> Same /\ ev.same                  \* all forms of a public key are one key
    [] ev.op = "race" -> Same /\ ev.ok
    [] ev.op = "badpub" -> Same /\ ~ev.ok
    [] ev.op = "badpriv" -> Same /\ ~ev.ok
    [] ev.op = "ecdh" -> Same /\ ev.ok /\ ev.same
    [] ev.op = "seal" -> Same /\ ev.ok /\ ev.fresh
    [] ev.op = "unseal" -> Same /\ IF ev.damage = "none" THEN ev.ok /\ ev.same = (ev.who = ev.to)
                                   ELSE ~(ev.ok /\ ev.same)
    [] OTHER -> FALSE
Next == TKStep /\ Step(Ev)
Spec == Init /\ [][Next]_<<sc, l, g>>
=============================================================================

------------------------------ MODULE DBTrace -------------------------------
EXTENDS DB, TraceKit
vars == <<sc, l, lv>>
Init == TKInit /\ lv = <<RealInit, LayerInit, LayerInit>>
Step(ev) ==
  /\ ev.panic = ""
  /\ CASE ev.op = "set" -> ev.ok /\ Write(ev.i, ev.b, ev.k, ev.v)
       [] ev.op = "del" -> ev.ok /\ Write(ev.i, ev.b, ev.k, Absent)
       [] ev.op = "get" -> ev.ok /\ ev.v = Read(ev.i, ev.b, ev.k) /\ UNCHANGED lv
       [] ev.op = "has" -> ev.has = (Read(ev.i, ev.b, ev.k) # Absent) /\ UNCHANGED lv
       [] ev.op = "flush" -> ev.ok /\ FlushTo(ev.i, TRUE)
       [] ev.op = "discard" -> ev.ok /\ FlushTo(ev.i, FALSE)
       [] ev.op = "flusherr" -> IF ev.ok THEN ~ev.injected /\ FlushTo(ev.i, TRUE)
                                ELSE ev.injected /\ FlushFails(ev.i)
       [] ev.op = "reopen" -> ev.ok /\ lv' = <<lv[1], LayerInit, LayerInit>>
       [] ev.op = "nilset" -> ~ev.ok /\ UNCHANGED lv
Next == TKStep /\ Step(Ev)
Spec == Init /\ [][Next]_vars
=============================================================================

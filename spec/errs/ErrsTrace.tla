----------------------------- MODULE ErrsTrace ------------------------------
EXTENDS Errs, TraceKit
VARIABLE h
Init == TKInit /\ h = <<>>
Step(ev) == ev.panic = "" /\
  CASE ev.op = "layer" ->
         /\ h' = Append(h, [op |-> ev.x, code |-> ev.c])
         /\ ev.has = HasCode(h') /\ ev.code = CodeOf(h')
         /\ ev.text = Text(h')                          \* which layer's text it shows
         /\ \A i \in 1..Len(ev.eq) : ev.eq[i].ok = (ev.eq[i].c = CodeOf(h'))
         /\ ev.shown = (IF ev.x \in Coded THEN CodeOf(h') ELSE -1)
    [] ev.op = "is" -> UNCHANGED h /\ ev.ok = (ev.j <= ev.i /\ ~ev.alien)
    [] ev.op = "nil" -> UNCHANGED h /\ ~ev.ok
    [] OTHER -> FALSE
Next == TKStep /\ Step(Ev)
Spec == Init /\ [][Next]_<<sc, l, h>>
=============================================================================

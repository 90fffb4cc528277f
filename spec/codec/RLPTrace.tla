------------------------------ MODULE RLPTrace ------------------------------
EXTENDS RLP, TraceKit
Init == TKInit
RECURSIVE Cat(_)
Cat(vs) == IF vs = <<>> THEN <<>> ELSE Enc(vs[1]) \o Cat(Tail(vs))
Step(ev) == ev.panic = "" /\
  CASE ev.op = "enc" -> ev.ok /\ ev.out = Cat(ev.vs)
    [] ev.op = "back" -> ev.ok /\ ev.got = ev.vs /\ ev.rest = ev.extra
    [] ev.op = "mp" -> ev.ok /\ ev.got = ev.vs
    [] ev.op = "dec" -> LET r == Dec(ev.s, ev.in) IN
         CASE r.st = "ok" -> ev.ok /\ ev.v = r.v /\ ev.rest = Len(ev.in) - r.nx + 1
           [] r.st = "soft" -> ev.ok => ev.v = r.v /\ ev.rest = Len(ev.in) - r.nx + 1
           [] r.st = "any" -> TRUE
           [] r.st = "err" -> ~ev.ok
Next == TKStep /\ Step(Ev)
Spec == Init /\ [][Next]_<<sc, l>>
=============================================================================

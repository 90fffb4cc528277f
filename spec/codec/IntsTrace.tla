----------------------------- MODULE IntsTrace ------------------------------
EXTENDS Ints, TraceKit
Init == TKInit
\* w: width in bytes, 0 = any
Fits(ev, v) == ev.w = 0 \/ IF ev.uns THEN FitsUint(v, ev.w) ELSE FitsInt(v, ev.w)
Step(ev) == ev.panic = "" /\
  CASE ev.op = "tobytes" -> ev.out = (IF ev.fn = "size" THEN (IF ev.v.mag = <<>> THEN <<0>> ELSE ev.v.mag) ELSE Twos(ev.v))
    [] ev.op = "frombytes" -> IF ev.fn = "size" THEN ev.v = IntOf(FALSE, ev.in)
                              ELSE IF ev.uns /\ ev.in # <<>> /\ ev.in[1] > 127
                                   THEN ev.v = IntOf(FALSE, [i \in 1..(8 - Len(ev.in)) |-> 255] \o ev.in)
                              ELSE Fits(ev, OfTwos(ev.in)) => ev.v = OfTwos(ev.in)
    [] ev.op = "text" -> ev.out = Text(ev.v)
    [] ev.op = "parse" ->
         /\ (ev.ok => Fits(ev, ev.v))
         /\ (IsNum(ev.in) => LET v == NumOf(ev.in) IN
               IF Fits(ev, v) THEN (ev.ok /\ ev.v = v) \/ (ev.uns /\ Sign(ev.in) /\ ~ev.ok) ELSE ~ev.ok)
         /\ (Garbage(ev.in) => ~ev.ok)
    [] ev.op = "hex" -> ev.out = (IF ev.kind = "raw" THEN <<>> ELSE <<48, 120>>) \o HexOf(ev.b)
    [] ev.op = "unhex" -> LET d == IF ev.kind # "raw" /\ Has0x(ev.in) THEN Digits(ev.in) ELSE ev.in IN
         IF IsHex(d) /\ Len(d) % 2 = 0 /\ (ev.kind = "req" => ev.in = <<>> \/ Has0x(ev.in))
         THEN ev.ok /\ ev.b = UnHex(d) ELSE ~ev.ok
Next == TKStep /\ Step(Ev)
Spec == Init /\ [][Next]_<<sc, l>>
=============================================================================

------------------------------ MODULE MonTrace ------------------------------
EXTENDS Mon, TraceKit
VARIABLES kind, feed, at, got, told
vars == <<sc, l, kind, feed, at, got, told>>
Init == TKInit /\ kind = "" /\ feed = <<>> /\ at = 0 /\ got = 0 /\ told = 0
Same == UNCHANGED <<kind, feed, at>>
Step(ev) == ev.op \notin {"crash", "hang"} /\ ev.panic = "" /\
  CASE ev.op = "mon" -> kind' = ev.kind /\ feed' = ev.feed /\ at' = ev.at /\ got' = 0 /\ told' = 0
    [] ev.op = "asked" -> Same /\ UNCHANGED <<got, told>> /\ ev.ok     \* the node got the subscription that was asked for
    [] ev.op = "init" -> Same /\ UNCHANGED <<got, told>> /\ got = 0 /\ kind # "event"
    \* the notifications, in order, exactly as they were sent
    [] ev.op = "note" -> Same /\ UNCHANGED told /\ got' = got + 1 /\ ev.i = got' /\ ev.same /\ got' <= Count(kind, feed, at) /\ told = 0
    [] ev.op = "error" -> Same /\ UNCHANGED got /\ told' = told + 1 /\ Told(kind, feed, at) /\ got = Count(kind, feed, at)
    [] ev.op = "end" -> /\ Same /\ UNCHANGED <<got, told>>
                        /\ got = Count(kind, feed, at) /\ ev.out = Ends(kind, feed, at)
                        /\ (Told(kind, feed, at) => told = 1)
    [] ev.op = "refused" -> Same /\ UNCHANGED <<got, told>> /\ ev.out = "err" /\ ev.calls = 0
    [] ev.op = "closed" -> Same /\ UNCHANGED <<got, told>> /\ ev.ended /\ ev.calls = ev.sent
    [] OTHER -> FALSE
Next == TKStep /\ Step(Ev)
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------ MODULE MTATrace ------------------------------
EXTENDS MTA, TraceKit
VARIABLES len,    \* leaves of the volatile accumulator
          state   \* leaves of the last flushed state
vars == <<sc, l, len, state>>

Exact(ws, i, n) == ws = Witness(i, n)
\* kinds of leaves are not part of the abstract state: a data leaf and a hash leaf
\* of the same digest are the same leaf
Step(ev) ==
  /\ (Has(ev, "panic") => ev.panic = "")
  /\ CASE ev.op = "new" -> len' = 0 /\ state' = 0 /\ ev.len = 0
       [] ev.op = "add" ->
            len' = len + 1 /\ UNCHANGED state /\ ev.len = len + 1 /\ Exact(ev.w, len, len + 1)
       [] ev.op = "flush" -> ev.ok /\ state' = len /\ UNCHANGED len /\ ev.len = len
       \* the injected write failure is reported, and nothing else changes
       [] ev.op = "flusherr" -> IF ev.injected THEN ~ev.ok /\ UNCHANGED <<len, state>> /\ ev.len = len
                                ELSE ev.ok /\ state' = len /\ UNCHANGED len /\ ev.len = len
       \* crash (during a flush) and recovery in a new process
       [] ev.op = "crash" -> /\ state' = (IF ev.injected THEN state ELSE len)
                             /\ len' = state' /\ ev.ok /\ ev.len = len'
       [] ev.op = "reopen" -> len' = state /\ UNCHANGED state /\ ev.ok /\ ev.len = state
       [] ev.op = "wit" -> UNCHANGED <<len, state>> /\
            (IF ev.i >= 0 /\ ev.i < len THEN ev.ok /\ Exact(ev.w, ev.i, len) ELSE ~ev.ok)
       [] ev.op = "witat" -> UNCHANGED <<len, state>> /\
            (IF ev.i >= 0 /\ ev.i < ev.at /\ ev.at <= len THEN ev.ok /\ Exact(ev.w, ev.i, ev.at) ELSE ~ev.ok)
       \* ExtAccumulator: heights are 1-based above the offset, at is clamped
       [] ev.op = "extwit" -> UNCHANGED <<len, state>> /\
            LET at == IF ev.at > len THEN len ELSE ev.at IN
            (IF ~ev.sameoff THEN ~ev.ok
             ELSE IF ev.i >= 0 /\ ev.i < at THEN ev.ok /\ ev.rat = at /\ Exact(ev.w, ev.i, at) ELSE ~ev.ok)
       [] ev.op = "node" -> UNCHANGED <<len, state>> /\
            (IF ev.i >= 0 /\ ev.i < len THEN ev.ok /\ ev.v = Leaf(ev.i) ELSE ~ev.ok)
       \* a leaf added as data can be read back under its hash once flushed
       [] ev.op = "data" -> UNCHANGED <<len, state>> /\ (ev.i < state => ev.found)
       [] ev.op = "verify" -> UNCHANGED <<len, state>> /\
            /\ ev.ok => IsLeafOf(ev.h, ev.n)
            /\ (\E i \in 0..(ev.wl - 1) : ev.h = Leaf(i) /\ ev.ws = Witness(i, ev.wl) /\ i < ev.n) => ev.ok
       \* round trip through the hash-only form: heights 0 .. complete trees only
       [] ev.op = "conv" -> UNCHANGED <<len, state>> /\ Exact(ev.w, ev.i, len)
       [] ev.op = "pos" -> UNCHANGED <<len, state>> /\ ev.pos = ev.i /\ ev.depth = Depth(ev.i, ev.at)
       [] ev.op = "height" -> UNCHANGED <<len, state>> /\ ev.height = len + ev.off
Init == TKInit /\ len = 0 /\ state = 0
Next == TKStep /\ Step(Ev)
Spec == Init /\ [][Next]_vars
=============================================================================

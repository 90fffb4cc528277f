----------------------------- MODULE SendTrace -----------------------------
(* What a sender may do with the relay messages it is given.  The node's answers *)
(* are part of the trace.  A message is handed to the contract in one call, or   *)
(* in fragments with the indexes -k, k-1, .., 0; the outcome of the last          *)
(* transaction is followed until it is known, reported if it is a rejection with  *)
(* a code, and followed by the status of the contract.                            *)
EXTENDS TraceKit, Integers, FiniteSets

VARIABLES cfg,
          cur,    \* the message being relayed: progress and what is expected
          last,   \* message -> its last transaction, for the accepted ones
          fin,    \* message -> outcome
          rep,    \* messages with a reported rejection
          out,    \* statuses answered and not handed over yet
          nst     \* status queries since the beginning
vars == <<cfg, cur, last, fin, rep, out, nst>>

Idle == [m |-> 0, off |-> 0, idx |-> 0, n |-> 0, st |-> "", tx |-> 0, len |-> 0, done |-> FALSE]
Fresh(m) == [Idle EXCEPT !.m = m, !.st = "first"]
Fun(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Accepts == {"ok", "dup"}
Again   == {"overflow", "expired"}

\* the message which a send event is about: a new one if none is being relayed
C(e) == IF cur.m = 0 THEN Fresh(e.m) ELSE cur

SendOk(e, c) ==
  /\ e.m = c.m /\ e.m \in 1..Len(cfg.ids) /\ e.ok /\ e.signed /\ e.fresh
  /\ c.st \in {"first", "next", "retry", "resign"}
  /\ e.len <= cfg.limit
  /\ c.st \in {"retry", "resign"} =>  \* the same again
        e.off = c.off /\ e.len = c.len /\ e.idx = c.idx
  /\ c.st = "resign" => e.tx # c.tx
  /\ IF e.method = "handleRelayMessage"
     THEN e.off = 0 /\ e.len = cfg.lens[e.m] /\ c.n = 0
     ELSE /\ e.method = "handleFragment" /\ cfg.kind = "icon"
          /\ c.st \in {"first", "next"} => (e.off = c.off \/ (e.len = 0 /\ c.off = cfg.lens[e.m]))
          /\ c.st = "first" => e.idx < 0
          /\ c.st = "next"  => e.idx = c.idx - 1
          /\ e.idx = 0 => c.n > 0 /\ (e.off + e.len = cfg.lens[e.m])
          /\ (e.idx # 0 /\ c.st \in {"first", "next"}) => e.len > 0

AfterSend(e, c) ==
  LET d == [c EXCEPT !.tx = e.tx, !.len = e.len, !.off = e.off, !.idx = e.idx] IN
  IF e.ans \in Accepts
  THEN IF e.method = "handleRelayMessage" \/ e.idx = 0
       THEN [d EXCEPT !.st = "accepted", !.done = TRUE]
       ELSE [d EXCEPT !.st = "next", !.n = @ + 1, !.off = e.off + e.len,
                      !.idx = IF e.idx < 0 THEN -e.idx ELSE e.idx]
  ELSE IF cfg.kind = "icon" /\ e.ans = "overflow" THEN [d EXCEPT !.st = "retry"]
  ELSE IF cfg.kind = "icon" /\ e.ans = "expired" THEN [d EXCEPT !.st = "resign"]
  ELSE [d EXCEPT !.st = "failed"]

Owner(tx) == {m \in DOMAIN last : last[m] = tx}

\* the query may reach the node before Relay has returned to its caller
OwnerNow(tx) == IF cur.st = "accepted" /\ cur.tx = tx THEN {cur.m} ELSE Owner(tx)

Step(e) ==
  CASE e.op = "begin" -> /\ e.limit > 0 /\ e.margin >= 0 /\ e.margin < e.limit
                         /\ cfg' = e /\ UNCHANGED <<cur, last, fin, rep, out, nst>>
    [] e.op = "gs" ->
         /\ e.nil = ~e.ok
         /\ IF e.ok THEN out = {e.v} ELSE out = {}
         /\ out' = {} /\ nst' = 0 /\ UNCHANGED <<cfg, cur, last, fin, rep>>
    [] e.op = "send" ->
         LET c == C(e) IN SendOk(e, c) /\ cur' = AfterSend(e, c) /\ UNCHANGED <<cfg, last, fin, rep, out, nst>>
    [] e.op = "ret" ->
         /\ IF e.ok
            THEN /\ cur.m = e.m /\ cur.st = "accepted" /\ e.id = cfg.ids[e.m]
                 /\ last' = Fun(last, e.m, cur.tx)
            ELSE /\ (cur.m = e.m => cur.st = "failed")
                 /\ (cur.m = 0 => cfg.kind = "ethbr")   \* it may fail before anything is sent
                 /\ cur.m \in {0, e.m}
                 /\ UNCHANGED last
         /\ cur' = Idle /\ UNCHANGED <<cfg, fin, rep, out, nst>>
    [] e.op = "query" ->
         /\ OwnerNow(e.tx) # {}
         /\ LET m == CHOOSE m \in OwnerNow(e.tx) : TRUE IN
            /\ m \notin DOMAIN fin
            /\ IF e.ans = "wait" THEN UNCHANGED fin
               ELSE fin' = Fun(fin, m, [a |-> e.ans, c |-> e.code])
         /\ UNCHANGED <<cfg, cur, last, rep, out, nst>>
    [] e.op = "result" ->
         /\ \E m \in DOMAIN fin : /\ cfg.ids[m] = e.id /\ m \notin rep
                                  /\ fin[m].a = "code" /\ fin[m].c = e.code
                                  /\ rep' = rep \cup {m}
         /\ UNCHANGED <<cfg, cur, last, fin, out, nst>>
    [] e.op = "qs" -> /\ e.ok /\ nst' = nst + 1
                      /\ out' = IF e.ans = "ok" THEN out \cup {e.v} ELSE out
                      /\ UNCHANGED <<cfg, cur, last, fin, rep>>
    [] e.op = "st" -> e.v \in out /\ out' = out \ {e.v} /\ UNCHANGED <<cfg, cur, last, fin, rep, nst>>
    [] e.op = "over" ->
         /\ cur = Idle
         /\ DOMAIN fin = DOMAIN last
         /\ rep = {m \in DOMAIN fin : fin[m].a = "code"}
         /\ nst >= Cardinality(DOMAIN last)
         /\ out = {}
         /\ UNCHANGED vars
    [] OTHER -> FALSE

Init == TKInit /\ cfg = 0 /\ cur = Idle /\ last = <<>> /\ fin = <<>> /\ rep = {} /\ out = {} /\ nst = 0
Next == TKStep /\ Step(Ev)
Spec == Init /\ [][Next]_<<sc, l, vars>>
=============================================================================

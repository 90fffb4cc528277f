----------------------------- MODULE LinkTrace -----------------------------
(* What a relay Link may do between its source (rs: a block of the source is    *)
(* announced) and its destination (relay, getstatus; result and status come     *)
(* back).  The state of the link is the position (height, seq) of the           *)
(* destination once everything relayed so far is applied.                       *)
(* ASPECT selects which property is judged: C01 order and completeness, C02     *)
(* size, C03 recovery and failures.                                             *)
EXTENDS TraceKit, Integers, FiniteSets

VARIABLES cfg,   \* the begin event
          ann,   \* announced heights
          pos,   \* [h, seq]
          rep,   \* statuses reported so far to this Link
          md     \* new | run | resync | fail | stop | ended

vars == <<cfg, ann, pos, rep, md>>

Chk(p) == IOEnv.ASPECT = p

Blk == cfg.blocks
B2  == cfg.mode = "btp2"
Idx == 1..Len(Blk)
\* last message of the blocks up to a height
LastOf(h) == LET S == {i \in Idx : Blk[i].h <= h} IN
             IF S = {} THEN 0 ELSE Blk[CHOOSE i \in S : \A j \in S : j <= i].last
NextTo(h, n) == /\ n > h
                /\ \E i \in Idx : Blk[i].h = n
                /\ \A i \in Idx : ~(h < Blk[i].h /\ Blk[i].h < n)
IsBlockMsg(h, f, t) == \E i \in Idx : Blk[i].h = h /\ Blk[i].first <= f /\ f <= t /\ t <= Blk[i].last

\* one item of a relay message on position p
ItemOk(it, p) ==
  IF it.t = "bu"
    THEN NextTo(p.h, it.h) /\ it.h \in ann /\ p.seq >= LastOf(p.h)
    ELSE /\ it.from = p.seq + 1
         /\ IsBlockMsg(it.h, it.from, it.to)
         /\ it.h \in ann
         /\ B2 => it.h = p.h
ItemPos(it, p) == IF it.t = "bu" THEN [p EXCEPT !.h = it.h] ELSE [h |-> it.h, seq |-> it.to]

RECURSIVE Ok(_, _), After(_, _), Size(_)
Ok(its, p) == IF its = <<>> THEN TRUE ELSE ItemOk(Head(its), p) /\ Ok(Tail(its), ItemPos(Head(its), p))
After(its, p) == IF its = <<>> THEN p ELSE After(Tail(its), ItemPos(Head(its), p))
Size(its) == IF its = <<>> THEN 0 ELSE Head(its).sz + Size(Tail(its))

Ahead(s, p) == (B2 /\ s.h > p.h) \/ s.seq > p.seq
At(e) == [h |-> e.h, seq |-> e.seq]
Covers(p, h) == /\ B2 => p.h >= h
                /\ p.seq >= LastOf(h)

Starts == IF cfg.burst THEN {pos} \cup rep ELSE {pos}

Step(e) ==
  CASE e.op = "begin" ->
        cfg' = e /\ ann' = {} /\ pos' = [h |-> 0, seq |-> 0] /\ rep' = {} /\ md' = "new"
    [] md = "ended" /\ e.op \notin {"start", "crash", "hang"} -> UNCHANGED vars
    [] e.op = "start" ->
        /\ md \in {"new", "run", "resync", "ended"} \/ cfg.burst
        /\ ann' = {} /\ rep' = {} /\ md' = "new" /\ UNCHANGED <<cfg, pos>>
    [] e.op = "getstatus" ->
        /\ pos' = At(e) /\ rep' = rep \cup {At(e)}
        /\ md' = IF md \in {"new", "resync"} THEN "run" ELSE md
        /\ UNCHANGED <<cfg, ann>>
    [] e.op = "rs" -> ann' = ann \cup {e.h} /\ UNCHANGED <<cfg, pos, rep, md>>
    [] e.op = "relay" ->
        /\ Chk("C01") => (e.items # <<>> /\ \E p \in Starts : Ok(e.items, p))
        /\ Chk("C02") => (Size(e.items) <= cfg.limit \/ Len(e.items) = 1)
        /\ Chk("C03") => (md \in {"run", "fail", "stop"} \/ cfg.burst)
        /\ LET S == {p \in Starts : Ok(e.items, p)} IN
           IF S = {} THEN pos' = After(e.items, pos)
           ELSE \E p \in S : pos' = After(e.items, p)
        /\ UNCHANGED <<cfg, ann, rep, md>>
    [] e.op = "result" ->
        /\ md' = CASE md \in {"fail", "stop"} -> md
                   [] e.code \in {26, 28} -> "resync"
                   [] e.code = 27 -> md
                   [] OTHER -> "stop"
        /\ UNCHANGED <<cfg, ann, pos, rep>>
    [] e.op = "status" ->
        /\ pos' = IF Ahead(At(e), pos) /\ ~cfg.burst THEN At(e) ELSE pos
        /\ rep' = rep \cup {At(e)}
        /\ UNCHANGED <<cfg, ann, md>>
    [] e.op = "inject" -> md' = "fail" /\ UNCHANGED <<cfg, ann, pos, rep>>
    [] e.op = "end" ->
        /\ Chk("C03") => (e.err /\ md \in {"fail", "stop"})
        /\ Chk("C01") => md # "run"
        /\ md' = "ended" /\ UNCHANGED <<cfg, ann, pos, rep>>
    [] e.op = "panicf" ->
        /\ (Chk("C03") \/ Chk("C01")) => md = "stop"
        /\ md' = "ended" /\ UNCHANGED <<cfg, ann, pos, rep>>
    [] e.op = "quiet" ->
        /\ Chk("C03") => md \in {"run"}
        /\ (Chk("C01") /\ ~cfg.burst /\ md = "run") => \A h \in ann : Covers(pos, h)
        /\ UNCHANGED vars
    [] e.op = "final" ->
        /\ (Chk("C01") \/ Chk("C03")) => (md = "run" => \A i \in Idx : Covers(At(e), Blk[i].h))
        /\ UNCHANGED vars
    [] e.op = "over" -> UNCHANGED vars
    [] OTHER -> FALSE

Init == TKInit /\ cfg = 0 /\ ann = {} /\ pos = [h |-> 0, seq |-> 0] /\ rep = {} /\ md = "new"
Next == TKStep /\ Step(Ev)
Spec == Init /\ [][Next]_<<sc, l, vars>>
=============================================================================

----------------------------- MODULE RelayTrace -----------------------------
(* What the chains saw of the relay program.                                     *)
EXTENDS Integers, Sequences, TraceKit
VARIABLES cfg, rx
tvars == <<sc, l, cfg, rx>>
Init == TKInit /\ cfg = [op |-> "none"] /\ rx = [x |-> 0, y |-> 0]
Into(c) == IF c = "y" THEN cfg.front ELSE cfg.reverse
Total(c) == IF c = "y" THEN cfg.nx ELSE cfg.ny
\* an error in the configuration: nothing may be relayed at all
Wrong == cfg.bad \in {"pw", "dir", "chain", "nokey", "noend"}
Step(ev) ==
  CASE ev.op = "begin" -> cfg' = ev /\ rx' = [x |-> 0, y |-> 0]
    [] ev.op = "status" -> Into(ev.at) /\ ev.ok /\ UNCHANGED <<cfg, rx>>
    [] ev.op = "nosave" -> cfg.bad = "pw" /\ UNCHANGED <<cfg, rx>>
    [] ev.op = "killed" -> UNCHANGED <<cfg, rx>>
    [] ev.op = "tx" ->
         /\ Into(ev.at) /\ ~Wrong
         /\ ev.signed /\ ev.link /\ ev.whole /\ ev.ok
         /\ ev.from = rx[ev.at] + 1
         /\ IF ev.code = 0 THEN ev.to >= rx[ev.at] /\ ev.to <= Total(ev.at) ELSE ev.to = rx[ev.at]
         /\ rx' = [rx EXCEPT ![ev.at] = ev.to]
         /\ UNCHANGED cfg
    [] ev.op = "over" ->
         /\ ev.x = rx.x /\ ev.y = rx.y
         /\ IF cfg.bad = ""
            THEN /\ ~ev.exited
                 /\ (cfg.front => rx.y = cfg.nx) /\ (cfg.reverse => rx.x = cfg.ny)
            ELSE ev.exited /\ ev.code # 0
         /\ UNCHANGED <<cfg, rx>>
    [] OTHER -> FALSE
Next == TKStep /\ Step(Ev)
Spec == Init /\ [][Next]_tvars
=============================================================================

------------------------------ MODULE LinkGen ------------------------------
(* Behaviours of the environment of a Link: a source chain of blocks with       *)
(* messages, the point where the destination stands, and the order in which      *)
(* blocks are announced, transactions executed, others relay, the relay          *)
(* restarts, or a call fails.  Simulation mode prints one scenario per walk.     *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxBlocks, MaxSteps, Faults

VARIABLES ph, blocks, hd, steps, nb

Units == {10, 25, 45, 70}
Init == /\ ph = "blocks" /\ blocks = <<>> /\ hd = 0 /\ steps = <<>>
        /\ nb \in 1..MaxBlocks

AddBlock == /\ ph = "blocks" /\ Len(blocks) < nb
            /\ \E n \in 0..4, bu \in {10, 30}, sz \in Units :
                 blocks' = Append(blocks, [n |-> n, bu |-> bu, sz |-> sz])
            /\ UNCHANGED <<ph, hd, steps, nb>>

Header == /\ ph = "blocks" /\ Len(blocks) = nb
          /\ \E b0 \in 0..nb, limit \in {40, 60, 100}, mode \in {"btp2", "bridge"}, batch \in {0, 1} :
             \E s0 \in 0..(IF b0 = 0 THEN 0 ELSE blocks[b0].n), burst \in {TRUE, FALSE} :
               hd' = [b0 |-> b0, s0 |-> s0, limit |-> limit, mode |-> mode, batch |-> batch,
                      burst |-> burst, margin |-> IF batch = 0 THEN 0 ELSE 7]
          /\ ph' = "steps" /\ UNCHANGED <<blocks, steps, nb>>

S(op, k, s) == [op |-> op, k |-> k, s |-> s]
Ops == {S("block", 0, x) : x \in {"a", "b"}} \cup {S("know", 0, "")}
       \cup {S("exec", k, "") : k \in 0..3}
       \cup {S("other", k, "") : k \in 0..1} \cup {S("notify", 0, "")} \cup {S("restart", 0, "")}
       \cup {S("code", k, "") : k \in {26, 28}}

Do == /\ ph = "steps" /\ Len(steps) < MaxSteps
      /\ \E o \in Ops : steps' = Append(steps, o)
      /\ UNCHANGED <<ph, blocks, hd, nb>>

Out(fail, at, st) ==
  PrintT("SCN" \o ToJson([blocks |-> blocks, limit |-> hd.limit, margin |-> hd.margin, b0 |-> hd.b0,
         s0 |-> hd.s0, mode |-> hd.mode, batch |-> hd.batch, burst |-> hd.burst,
         steps |-> st, fail |-> fail, failat |-> at]))

Finish == /\ ph = "steps" /\ Len(steps) = MaxSteps
          /\ IF Faults
               THEN \E f \in {"r.Start", "r.BuildBlockUpdate", "r.BuildMessageProof", "r.BuildRelayMessage",
                              "s.Start", "s.GetStatus", "s.Relay", "close-r", "close-s",
                              "code-25", "code-0", "code-29", "code-11"}, at \in 1..3 :
                 CASE f = "close-r" -> Out("", 0, Append(steps, S("close", 0, "r")))
                   [] f = "close-s" -> Out("", 0, Append(steps, S("close", 0, "s")))
                   [] f = "code-25" -> Out("", 0, Append(steps, S("code", 25, "")))
                   [] f = "code-0"  -> Out("", 0, Append(steps, S("code", 40, "")))
                   [] f = "code-29" -> Out("", 0, Append(steps, S("code", 29, "")))
                   [] f = "code-11" -> Out("", 0, Append(steps, S("code", 11, "")))
                   [] OTHER -> Out(f, at, steps)
               ELSE Out("", 0, steps)
          /\ ph' = "done" /\ UNCHANGED <<blocks, hd, steps, nb>>

Next == AddBlock \/ Header \/ Do \/ Finish
Spec == Init /\ [][Next]_<<ph, blocks, hd, steps, nb>>
=============================================================================

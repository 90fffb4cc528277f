------------------------------ MODULE RecvGen ------------------------------
(* Source chains, starting points, faults and questions for a receiver.  One    *)
(* scenario per simulated walk.                                                  *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxBlocks, MaxSteps, Kinds, Faults

VARIABLES ph, blocks, hd, steps, nb
vars == <<ph, blocks, hd, steps, nb>>

Init == ph = "blocks" /\ blocks = <<>> /\ hd = 0 /\ steps = <<>> /\ nb \in 1..MaxBlocks

AddBlock == /\ ph = "blocks" /\ Len(blocks) < nb
            /\ \E n \in 0..5, sz \in {8, 54, 70, 300}, gap \in {1, 2, 5} :
                 blocks' = Append(blocks, [n |-> n, sz |-> sz, gap |-> gap])
            /\ UNCHANGED <<ph, hd, steps, nb>>

IconFaults == {"ws-close", "ws-normal", "ws-garbage", "ws-badheader", "ws-badrlp", "netid", "offset", "netinfo",
               "messages", "badmsg", "gateway", "header", "proof"}
EvmFaults == {"eth_getLogs", "eth_getBlockByNumber", "drop"}
FaultsOf(k) == IF ~Faults THEN {""} ELSE IF k = "ethbr" THEN EvmFaults ELSE IconFaults

Header == /\ ph = "blocks" /\ Len(blocks) = nb
          /\ \E kind \in Kinds : \E b0 \in 0..nb, off \in (IF kind = "ethbr" THEN {0} ELSE {0, 3}),
                ws \in (IF kind = "ethbr" THEN {TRUE, FALSE} ELSE {TRUE}), at \in (IF Faults THEN 0..nb ELSE {0}), f \in FaultsOf(kind) :
             \E s0 \in 0..(IF b0 = 0 THEN 0 ELSE blocks[b0].n), pre \in (b0 + 1)..(nb + 1) :
               hd' = [kind |-> kind, b0 |-> b0, off |-> off, ws |-> ws, s0 |-> s0, pre |-> pre, fault |-> f, at |-> at]
          /\ ph' = "steps" /\ UNCHANGED <<blocks, steps, nb>>

S(op, k, b, s, lim) == [op |-> op, k |-> k, b |-> b, s |-> s, lim |-> lim]
Ops == {S("pub", k, 0, 0, 0) : k \in 1..2}
       \cup {S("q", 0, b, s, lim) : b \in hd.b0..nb, s \in 0..4, lim \in {1, 90, 140, 200, 400, 1000, 100000}}
       \cup {S("fin", 0, b, s, 0) : b \in hd.b0..nb, s \in 0..4}
       \cup {S("hgt", 0, 0, s, 0) : s \in 1..12}

Do == /\ ph = "steps" /\ Len(steps) < MaxSteps
      /\ \E op \in {"pub", "q", "q2", "fin", "hgt"} :
         \E o \in {x \in Ops : x.op = op \/ (op = "q2" /\ x.op = "q")} : steps' = Append(steps, o)
      /\ UNCHANGED <<ph, blocks, hd, nb>>

Finish == /\ ph = "steps" /\ Len(steps) = MaxSteps
          /\ PrintT("SCN" \o ToJson([kind |-> hd.kind, ws |-> hd.ws, blocks |-> blocks, off |-> hd.off, b0 |-> hd.b0,
                s0 |-> hd.s0, pre |-> hd.pre, fault |-> hd.fault, at |-> hd.at, steps |-> steps]))
          /\ ph' = "done" /\ UNCHANGED <<blocks, hd, steps, nb>>

Next == AddBlock \/ Header \/ Do \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

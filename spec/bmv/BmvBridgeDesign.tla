--------------------------- MODULE BmvBridgeDesign ---------------------------
(* Honest relays, each at its own position and restarting anywhere, relay parts *)
(* of the same source: all messages pass, each once and in order, whatever the  *)
(* interleaving and division are.                                               *)
EXTENDS BmvBridge, FiniteSets, TLC
CONSTANT Counts                                \* messages of the blocks of the source
VARIABLES h, out
C1 == <<2, 1, 4, 3>>
Source == LET RECURSIVE F(_)
              F(b) == IF b = 0 THEN << >> ELSE F(b - 1) \o [i \in 1..Counts[b] |-> b]
          IN F(Len(Counts))                    \* the block of each message
Total == Len(Source)
\* messages a+1..z as an honest relay packs them: one receipt for a block
RECURSIVE Pack(_, _)
Pack(a, z) == IF a >= z THEN << >>
  ELSE LET b == Source[a + 1]
           n == Cardinality({i \in (a + 1)..z : Source[i] = b})
       IN <<[h |-> 10 * b, es |-> [i \in 1..n |-> [s |-> a + i, m |-> a + i]]]>> \o Pack(a + n, z)
Init == h = 0 /\ out = << >>
Next == \E a \in 0..Total : \E z \in a..Total :
  LET r == Relay(h, [by |-> "bmc", cur |-> "bmc", prev |-> "src", seq |-> Len(out), dam |-> "none", rs |-> Pack(a, z)])
  IN r.ok /\ h' = r.h /\ out' = out \o r.ms
Spec == Init /\ [][Next]_<<h, out>>
InOrder == out = [i \in 1..Len(out) |-> i]
Behind == out # << >> => h >= 10 * Source[Len(out)]
\* a relay that starts where the BMC is gets everything through at once
Progress == \A z \in Len(out)..Total :
  Relay(h, [by |-> "bmc", cur |-> "bmc", prev |-> "src", seq |-> Len(out), dam |-> "none", rs |-> Pack(Len(out), z)]).ms
    = [i \in 1..(z - Len(out)) |-> Len(out) + i]
=============================================================================

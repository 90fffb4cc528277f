------------------------------ MODULE RelayGen ------------------------------
(* Worlds for the relay program: chains, directions, ways of configuration,      *)
(* kills, other relayers, rejections and faults.                                 *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kinds, Dirs, Chans, Bads, MaxBlocks, MaxMsgs, Trouble
VARIABLES s, n
Blocks == UNION {[1..k -> 0..MaxMsgs] : k \in 1..MaxBlocks}
R(S) == IF n >= 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE   \* n: a draw per state
Init == n = 0 /\ s = [op |-> "none"]
Next == /\ n < 400 /\ n' = n + 1
        /\ \E x, y \in Kinds : \E d \in Dirs :
           s' = [x |-> x, y |-> y, dir |-> d, chan |-> R(Chans), bx |-> R(Blocks), by |-> R(Blocks), pre |-> R(0..3),
                 ws |-> R(BOOLEAN), kill |-> IF "kill" \in Trouble THEN R(0..2) ELSE 0,
                 dup |-> IF "dup" \in Trouble THEN R({0, 1, 2}) ELSE 0,
                 rej |-> IF "rej" \in Trouble THEN R({0, 1, 2, 3}) ELSE 0,
                 bad |-> R(Bads)]
        /\ ~(s'.bad = "nokey" /\ s'.chan = "save")  \* saving makes a key then
Spec == Init /\ [][Next]_<<s, n>>
Emit == n > 0 => PrintT("SCN" \o ToJson(s))
=============================================================================

----------------------------- MODULE AddrDesign -----------------------------
(* Composing and taking apart are inverse to each other; generator of texts.   *)
EXTENDS Addr, TLC, Json
CONSTANTS Parts, Soup, N, Emitting
VARIABLES s, k, parts
T(str) == CASE str = "" -> <<>> [] str = "btp" -> <<98, 116, 112>> [] str = "0x1" -> <<48, 120, 49>>
            [] str = "icon" -> <<105, 99, 111, 110>> [] str = "cx" -> <<99, 120, 57>>
            [] str = "iconee" -> <<105, 99, 111, 110, 101, 101>> [] str = "c" -> <<99>> [] str = "Ab" -> <<48, 120, 65, 98>>
            [] str = "a/b" -> <<99, 47, 98>> [] str = "x.y" -> <<48, 46, 105>>
Init == \/ k = "well" /\ \E p, n, b, a \in Parts : parts = <<p, n, b, a>> /\ s = Compose(T(p), T(n), T(b), T(a))
        \/ k = "soup" /\ s = <<>> /\ parts = <<>>
Next == k = "soup" /\ Len(s) < N /\ \E c \in Soup : s' = Append(s, c) /\ UNCHANGED <<k, parts>>
Spec == Init /\ [][Next]_<<s, k, parts>>
Inverse == (k = "well" /\ parts[1] # "" /\ parts[2] # "" /\ parts[3] # "" /\ \A i \in 1..4 : parts[i] \notin {"a/b", "x.y"}) =>
   /\ WellFormed(s)
   /\ Proto(s) = T(parts[1]) /\ Nid(s) = T(parts[2]) /\ Chain(s) = T(parts[3]) /\ Acct(s) = T(parts[4])
   /\ Compose(Proto(s), Nid(s), Chain(s), Acct(s)) = s
General == WellFormed(s) => /\ GProto(s) = Proto(s) /\ GNet(s) = Net(s) /\ GNid(s) = Nid(s)
                            /\ GChain(s) = Chain(s) /\ GAcct(s) = Acct(s)
Recompose == WellFormed(s) => Compose(Proto(s), Nid(s), Chain(s), Acct(s)) = s
Emit == Emitting => PrintT("SCN" \o ToJson([s |-> s]))
=============================================================================

-------------------------------- MODULE Addr --------------------------------
(* Texts are sequences of character codes.                                     *)
(* BTP address: PROTOCOL://NID.BLOCKCHAIN/ACCOUNT.  ICON address: 21 bytes,    *)
(* the first 0 for accounts (hx) and 1 for contracts (cx).                     *)
EXTENDS Ints
Slash == 47
Dot == 46
Colon == 58
RECURSIVE Cut(_, _)   \* the parts of s between the separators c
Cut(s, c) == LET p == {i \in 1..Len(s) : s[i] = c} IN
             IF p = {} THEN <<s>>
             ELSE LET i == CHOOSE i \in p : \A j \in p : i <= j IN
                  <<SubSeq(s, 1, i - 1)>> \o Cut(SubSeq(s, i + 1, Len(s)), c)
Clean(s) == \A i \in 1..Len(s) : s[i] \notin {Slash, Dot, Colon}
Compose(p, n, b, a) == p \o <<Colon, Slash, Slash>> \o n \o <<Dot>> \o b \o <<Slash>> \o a
\* the well-formed ones, and their parts
WellFormed(s) ==
  LET x == Cut(s, Slash) IN
  /\ Len(x) = 4 /\ x[2] = <<>> /\ Len(x[1]) > 1 /\ x[1][Len(x[1])] = Colon
  /\ Clean(SubSeq(x[1], 1, Len(x[1]) - 1)) /\ Clean(x[4])
  /\ LET y == Cut(x[3], Dot) IN Len(y) = 2 /\ Clean(y[1]) /\ Clean(y[2]) /\ y[1] # <<>> /\ y[2] # <<>>
Proto(s) == LET x == Cut(s, Slash) IN SubSeq(x[1], 1, Len(x[1]) - 1)
Net(s) == Cut(s, Slash)[3]
Nid(s) == Cut(Net(s), Dot)[1]
Chain(s) == Cut(Net(s), Dot)[2]
Acct(s) == Cut(s, Slash)[4]

\* any text: the parts end at the next separator, and what is not there is empty
PIdx(s) == {i \in 2..(Len(s) - 2) : s[i] = Colon /\ s[i+1] = Slash /\ s[i+2] = Slash}
GIdx(s) == {i \in 1..(Len(s) - 2) : s[i] = Colon /\ s[i+1] = Slash /\ s[i+2] = Slash}
HasProto(s) == GIdx(s) # {} /\ GIdx(s) = PIdx(s)
GProto(s) == IF HasProto(s) THEN LET i == CHOOSE i \in PIdx(s) : \A j \in PIdx(s) : i <= j IN SubSeq(s, 1, i - 1) ELSE <<>>
Rest(s) == Cut(SubSeq(s, Len(GProto(s)) + 4, Len(s)), Slash)
GNet(s) == IF HasProto(s) THEN Rest(s)[1] ELSE <<>>
GNid(s) == LET y == Cut(GNet(s), Dot) IN IF Len(y) > 1 THEN y[1] ELSE <<>>
GChain(s) == LET y == Cut(GNet(s), Dot) IN IF Len(y) > 1 THEN y[2] ELSE y[1]
GAcct(s) == IF HasProto(s) /\ Len(Rest(s)) > 1 THEN Rest(s)[2] ELSE <<>>

Kind(b) == IF b[1] = 1 THEN <<99, 120>> ELSE <<104, 120>>
AddrText(b) == Kind(b) \o HexOf(Tail(b))
IsAddrText(s) == Len(s) = 42 /\ SubSeq(s, 1, 2) \in {<<99, 120>>, <<104, 120>>} /\ IsHex(SubSeq(s, 3, 42))
AddrOf(s) == <<IF s[1] = 99 THEN 1 ELSE 0>> \o UnHex(SubSeq(s, 3, 42))
\* a text with fewer digits, or without its prefix, denotes the number it writes
Prefixed(s) == Len(s) >= 2 /\ SubSeq(s, 1, 2) \in {<<99, 120>>, <<104, 120>>, <<48, 120>>}
ADigits(s) == IF Prefixed(s) THEN SubSeq(s, 3, Len(s)) ELSE s

IsShortText(s) == ADigits(s) # <<>> /\ Len(ADigits(s)) <= 40 /\ IsHex(ADigits(s))
Pad20(b) == [i \in 1..(20 - Len(b)) |-> 0] \o b
ShortOf(s) == <<IF Prefixed(s) /\ s[1] = 99 THEN 1 ELSE 0>> \o Pad20(UnHex(Even(ADigits(s))))
=============================================================================

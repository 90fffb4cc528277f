-------------------------------- MODULE Ints --------------------------------
(* Integers of any size as [neg, mag], mag the big-endian magnitude without    *)
(* leading zeros (TLC's own integers have 32 bits), their two's complement and *)
(* their hexadecimal text.                                                     *)
EXTENDS Naturals, Sequences

RECURSIVE Strip(_)
Strip(b) == IF b # <<>> /\ b[1] = 0 THEN Strip(Tail(b)) ELSE b
Zero == [neg |-> FALSE, mag |-> <<>>]
IntOf(neg, b) == LET m == Strip(b) IN [neg |-> neg /\ m # <<>>, mag |-> m]
Neg(v) == IntOf(~v.neg, v.mag)

RECURSIVE Minus1(_)   \* b > 0, same length
Minus1(b) == IF b[Len(b)] > 0 THEN [b EXCEPT ![Len(b)] = @ - 1]
          ELSE Minus1(SubSeq(b, 1, Len(b) - 1)) \o <<255>>
RECURSIVE Plus1(_)   \* same length, or one more
Plus1(b) == IF b = <<>> THEN <<1>>
          ELSE IF b[Len(b)] < 255 THEN [b EXCEPT ![Len(b)] = @ + 1]
          ELSE Plus1(SubSeq(b, 1, Len(b) - 1)) \o <<0>>
Inv(b) == [i \in 1..Len(b) |-> 255 - b[i]]
Pad(b) == IF b = <<>> \/ b[1] > 127 THEN <<0>> \o b ELSE b

\* the shortest two's complement
Twos(v) == IF v.neg THEN Inv(Pad(Strip(Minus1(v.mag)))) ELSE Pad(v.mag)
OfTwos(b) == IF b = <<>> THEN Zero
             ELSE IF b[1] < 128 THEN IntOf(FALSE, b)
             ELSE IntOf(TRUE, Plus1(Inv(b)))
\* does it fit into n bytes
FitsInt(v, n) == Len(Twos(v)) <= n
FitsUint(v, n) == ~v.neg /\ Len(v.mag) <= n

\* text
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE HexOf(_)
HexOf(b) == IF b = <<>> THEN <<>> ELSE <<HexDigit(b[1] \div 16), HexDigit(b[1] % 16)>> \o HexOf(Tail(b))
HexNum(b) == IF b = <<>> THEN <<48>> ELSE LET h == HexOf(b) IN IF h[1] = 48 THEN Tail(h) ELSE h
Text(v) == (IF v.neg THEN <<45>> ELSE <<>>) \o <<48, 120>> \o HexNum(v.mag)
Nib(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
IsHex(s) == \A i \in 1..Len(s) : Nib(s[i]) < 16
RECURSIVE UnHex(_)  \* even length
UnHex(s) == IF s = <<>> THEN <<>> ELSE <<16 * Nib(s[1]) + Nib(s[2])>> \o UnHex(SubSeq(s, 3, Len(s)))
Even(s) == IF Len(s) % 2 = 1 THEN <<48>> \o s ELSE s
Sign(s) == s # <<>> /\ s[1] = 45
UnSign(s) == IF Sign(s) THEN Tail(s) ELSE s
Has0x(s) == Len(s) >= 2 /\ s[1] = 48 /\ s[2] = 120
Digits(s) == SubSeq(s, 3, Len(s))
\* [-]0x digits
IsNum(s) == LET u == UnSign(s) IN Has0x(u) /\ Len(u) > 2 /\ IsHex(Digits(u))
NumOf(s) == IntOf(Sign(s), UnHex(Even(Digits(UnSign(s)))))
\* characters of which no number of any notation consists
Garbage(s) == \E i \in 1..Len(s) : Nib(s[i]) = 99 /\ s[i] \notin {43, 45, 95, 120, 88, 111, 79, 98, 66}
=============================================================================

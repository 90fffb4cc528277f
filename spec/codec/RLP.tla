-------------------------------- MODULE RLP ---------------------------------
(* The RLP of BTP: Ethereum's RLP, integers as shortest two's complement,      *)
(* absent values as the sequence f8 00.                                        *)
(* Values:  [t: "nil"], [t: "int", v], [t: "bool", x], [t: "b", b], [t: "l", l],*)
(*          [t: "m", m]                                                        *)
(* Schemas: [k: "int"/"uint", w], "bool", "b" (bytes or text), [k: "arr", n],  *)
(*   [k: "addr"], "big", [k: "list", e], [k: "larr", n, e], [k: "ptr", e],     *)
(*   [k: "map", key, e], [k: "struct", f], [k: "self", f] (all fields needed)  *)
EXTENDS Ints, Integers
Nil == [t |-> "nil"]
B(b) == [t |-> "b", b |-> b]
L(l) == [t |-> "l", l |-> l]
I(v) == [t |-> "int", v |-> v]
M(l) == [t |-> "m", m |-> l]      \* pairs in the order of their keys

RECURSIVE SizeBytes(_)
SizeBytes(n) == IF n = 0 THEN <<>> ELSE SizeBytes(n \div 256) \o <<n % 256>>
Head1(base, n) == IF n <= 55 THEN <<base + n>> ELSE LET s == SizeBytes(n) IN <<base + 55 + Len(s)>> \o s
EncB(b) == IF Len(b) = 1 /\ b[1] < 128 THEN b ELSE Head1(128, Len(b)) \o b
RECURSIVE Enc(_)
RECURSIVE EncSeq(_)
EncSeq(l) == IF l = <<>> THEN <<>>
             ELSE IF Len(l) = 1 THEN Enc(l[1])
             ELSE EncSeq(SubSeq(l, 1, Len(l) \div 2)) \o EncSeq(SubSeq(l, Len(l) \div 2 + 1, Len(l)))
Enc(v) == CASE v.t = "nil"  -> <<248, 0>>
            [] v.t = "int"  -> EncB(Twos(v.v))
            [] v.t = "bool" -> IF v.x THEN <<1>> ELSE <<0>>
            [] v.t = "b"    -> EncB(v.b)
            [] v.t = "m"    -> LET c == EncSeq([i \in 1..(2 * Len(v.m)) |-> v.m[(i + 1) \div 2].l[IF i % 2 = 1 THEN 1 ELSE 2]])
                               IN Head1(192, Len(c)) \o c
            [] v.t = "l"    -> LET c == EncSeq(v.l) IN Head1(192, Len(c)) \o c

-----------------------------------------------------------------------------
(* Reading.  Item(b, i): the item which begins at position i of b:             *)
(* k: "b" bytes, "l" list, "nil", "end" nothing left, "bad" cut off;           *)
(* from..to its content, strict: written in the shortest way.                  *)
Sz(b, i, n) == \* the number in n bytes at i; -1 when too big for any input
  LET m == Strip(SubSeq(b, i, i + n - 1)) IN
  IF Len(m) > 3 THEN -1 ELSE
  CASE Len(m) = 0 -> 0 [] Len(m) = 1 -> m[1] [] Len(m) = 2 -> 256 * m[1] + m[2]
    [] OTHER -> 65536 * m[1] + 256 * m[2] + m[3]
It(k, f, t, s) == [k |-> k, from |-> f, to |-> t, strict |-> s]
Bad == It("bad", 1, 0, TRUE)
Span(b, k, f, n, s) == IF f + n - 1 > Len(b) THEN Bad ELSE It(k, f, f + n - 1, s)
Long(b, i, k, n) ==
  IF i + n > Len(b) THEN Bad
  ELSE LET z == Sz(b, i + 1, n) IN
       IF z < 0 THEN Bad ELSE Span(b, k, i + 1 + n, z, b[i + 1] # 0 /\ z > 55)
Item(b, i) ==
  IF i > Len(b) THEN It("end", i, i - 1, TRUE)
  ELSE LET h == b[i] IN
    CASE h < 128 -> It("b", i, i, TRUE)
      [] h \in 128..183 -> Span(b, "b", i + 1, h - 128, ~(h = 129 /\ i < Len(b) /\ b[i + 1] < 128))
      [] h \in 184..191 -> Long(b, i, "b", h - 183)
      [] h \in 192..247 -> Span(b, "l", i + 1, h - 192, TRUE)
      [] h = 248 /\ i < Len(b) /\ b[i + 1] = 0 -> It("nil", i + 2, i + 1, TRUE)
      [] OTHER -> Long(b, i, "l", h - 247)

(* st: "ok" must be read as v; "soft" may be refused, and if not is v;         *)
(* "any" may be read as anything; "err" must be refused; "end" nothing there   *)
Worst(a, b) == IF "err" \in {a, b} THEN "err" ELSE IF "any" \in {a, b} THEN "any"
               ELSE IF "soft" \in {a, b} THEN "soft" ELSE "ok"
R(st, v, nx) == [st |-> st, v |-> v, nx |-> nx]
Err == R("err", Nil, 0)
ErrL == R("err", <<>>, 0)

RECURSIVE ZeroOf(_)
ZeroOf(s) ==
  CASE s.k \in {"int", "uint", "big"} -> I(Zero)
    [] s.k = "bool" -> [t |-> "bool", x |-> FALSE]
    [] s.k = "str" -> B(<<>>)
    [] s.k = "arr" -> B([i \in 1..s.n |-> 0])
    [] s.k = "addr" -> B([i \in 1..21 |-> 0])
    [] s.k = "larr" -> L([i \in 1..s.n |-> ZeroOf(s.e)])
    [] s.k \in {"struct", "self"} -> L([i \in 1..Len(s.f) |-> ZeroOf(s.f[i])])
    [] OTHER -> Nil   \* b, list, ptr, map
NilOk(s) == s.k \in {"b", "list", "map"}

RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE
              ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b)))
LessMag(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Less(a, b))
LessInt(a, b) == IF a.neg # b.neg THEN a.neg ELSE IF a.neg THEN LessMag(b.mag, a.mag) ELSE LessMag(a.mag, b.mag)
LessVal(a, b) == IF a.t = "int" THEN LessInt(a.v, b.v) ELSE Less(a.b, b.b)

(* Dec(s, b, i): read a value of schema s at position i of b.  Null where the  *)
(* schema has no place for it: st = "null".                                    *)
RECURSIVE Dec_(_, _, _)
\* a position in a list or structure: null gives the zero value
DecN(s, b, i) == LET r == Dec_(s, b, i) IN IF r.st = "null" THEN R("ok", ZeroOf(s), r.nx) ELSE r

RECURSIVE Fields(_, _, _, _, _)
\* fields f[n..] from position i; need: none may be missing
Fields(f, n, b, i, need) ==
  IF n > Len(f) THEN R("ok", <<>>, i)
  ELSE LET r == DecN(f[n], b, i) IN
    CASE r.st = "end" -> IF need THEN ErrL ELSE R("ok", [j \in 1..(Len(f) - n + 1) |-> ZeroOf(f[n + j - 1])], i)
      [] r.st = "err" -> ErrL
      [] OTHER -> LET q == Fields(f, n + 1, b, r.nx, need) IN R(Worst(r.st, q.st), <<r.v>> \o q.v, q.nx)
RECURSIVE Elems(_, _, _)
Elems(e, b, i) ==
  LET r == DecN(e, b, i) IN
  CASE r.st = "end" -> R("ok", <<>>, i)
    [] r.st = "err" -> R("err", <<>>, 0)
    [] OTHER -> LET q == Elems(e, b, r.nx) IN R(Worst(r.st, q.st), <<r.v>> \o q.v, q.nx)
RECURSIVE Pairs(_, _, _, _)
Pairs(k, e, b, i) ==
  LET r == Dec_(k, b, i) IN
  CASE r.st = "end" -> R("ok", <<>>, i)
    [] r.st \in {"err", "null"} -> R("err", <<>>, 0)
    [] OTHER -> LET v == DecN(e, b, r.nx) IN
       IF v.st \in {"err", "end"} THEN R("err", <<>>, 0)
       ELSE LET q == Pairs(k, e, b, v.nx) IN
            R(Worst(Worst(r.st, v.st), q.st), <<L(<<r.v, v.v>>)>> \o q.v, q.nx)

Dec_(s, b, i) ==
  IF s.k = "ptr" THEN LET r == Dec_(s.e, b, i) IN r
  ELSE LET x == Item(b, i)
           nx == x.to + 1
           c == SubSeq(b, x.from, x.to)
           canon == IF x.strict THEN "ok" ELSE "soft" IN
    CASE x.k = "end" -> R("end", Nil, i)
      [] x.k = "bad" -> Err
      [] x.k = "nil" -> IF NilOk(s) THEN R("ok", Nil, nx) ELSE R("null", Nil, nx)
      [] s.k \in {"int", "uint", "bool", "str", "b", "arr", "addr", "big"} /\ x.k = "l" -> Err
      [] s.k \in {"list", "larr", "map", "struct", "self"} /\ x.k = "b" -> Err
      [] s.k = "int" -> LET v == OfTwos(c) IN
           R(IF ~FitsInt(v, s.w) THEN "any" ELSE IF Twos(v) # c THEN "soft" ELSE canon, I(v), nx)
      [] s.k = "uint" -> LET v == OfTwos(c) IN
           R(IF ~FitsUint(v, s.w) THEN "any" ELSE IF Twos(v) # c THEN "soft" ELSE canon, I(v), nx)
      [] s.k = "big" -> LET v == OfTwos(c) IN R(IF Twos(v) # c THEN "soft" ELSE canon, I(v), nx)
      [] s.k = "bool" -> R(IF c \in {<<0>>, <<1>>} THEN canon ELSE IF Len(c) < 9 THEN "soft" ELSE "any",
                           [t |-> "bool", x |-> Strip(c) # <<>>], nx)
      [] s.k \in {"str", "b"} -> R(canon, B(c), nx)
      [] s.k = "arr" -> R(IF Len(c) = s.n THEN canon ELSE "any", B(c), nx)
      [] s.k = "addr" -> IF c = <<>> \/ c[1] > 1 THEN Err ELSE R(IF Len(c) = 21 THEN canon ELSE "any", B(c), nx)
      [] s.k = "list" -> LET q == Elems(s.e, c, 1) IN R(Worst(canon, q.st), L(q.v), nx)
      [] s.k = "larr" -> LET q == Elems(s.e, c, 1)
                             p == Fields([j \in 1..s.n |-> s.e], 1, c, 1, FALSE) IN
                         IF q.st # "err" /\ Len(q.v) = s.n THEN R(Worst(canon, q.st), L(q.v), nx)
                         ELSE R(IF p.st = "err" THEN "err" ELSE "any", Nil, nx)
      [] s.k = "map" -> LET q == Pairs(s.key, s.e, c, 1) IN
           R(Worst(canon, IF q.st = "err" THEN "err"
                          ELSE IF \E j \in 1..(Len(q.v) - 1) : ~LessVal(q.v[j].l[1], q.v[j + 1].l[1])
                               THEN "any" ELSE q.st), M(q.v), nx)
      [] s.k = "struct" -> LET q == Fields(s.f, 1, c, 1, FALSE) IN R(Worst(canon, q.st), L(q.v), nx)
      [] s.k = "self" -> LET q == Fields(s.f, 1, c, 1, TRUE) IN R(Worst(canon, q.st), L(q.v), nx)
\* the outermost value
Dec(s, b) == LET r == Dec_(s, b, 1) IN IF r.st \in {"null", "end"} THEN Err ELSE r
=============================================================================

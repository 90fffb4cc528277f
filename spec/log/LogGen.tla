------------------------------- MODULE LogGen -------------------------------
EXTENDS Log, TLC, Json, IOUtils
VARIABLES s, hist, k
R(S) == IF k > 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
RS(q) == q[R(DOMAIN q)]
One(n) == R(1..n) = 1
L == RS(<<0, 1, 2, 3, 4, 5, 6>>)
Set == RS(<<4, 5, 6, 6, 3, 2, 1, 0>>)
M == RS(<<"main", "a", "ab", "log">>)
Fields == [module |-> IF One(2) THEN M ELSE "", wallet |-> IF One(3) THEN RS(<<"a", "abcd", "abcdefgh">>) ELSE "", chain |-> IF One(3) THEN "c1" ELSE "",
           prefix |-> IF One(4) THEN "p>" ELSE "", extra |-> IF One(4) THEN RS(<<"e1", "e2">>) ELSE ""]
Some == R(0..Len(s.logs))
Call(i, x) == [op |-> "log", i |-> i, l |-> x, nl |-> RS(<<0, 0, 0, 1, 2>>),
       form |-> IF x = 1 THEN "Log" \* the others end the program
                ELSE IF (s.logs[IF i = 0 THEN s.glob ELSE i].module # "" /\ i # 0 /\ One(3)) THEN RS(<<"Log", "Logf", "Logln">>)
                ELSE IF x = 4 /\ One(4) THEN RS(<<"print", "printf", "println">>) ELSE RS(<<"plain", "plain", "f", "ln">>)]
Op == LET z == R(1..30)  i == Some IN
  CASE z = 1 -> [op |-> "level", i |-> i, l |-> Set]
    [] z = 2 -> [op |-> "console", i |-> i, l |-> Set]
    [] z \in 3..4 -> [op |-> "mod", i |-> i, m |-> M, l |-> Set]
    [] z = 5 -> [op |-> "caller", on |-> (~s.caller \/ One(3)), i |-> i]
    [] z = 6 -> [op |-> "file", i |-> i, n |-> IF One(4) THEN 0 ELSE R(1..3)]
    [] z = 7 -> [op |-> "glob", i |-> R(1..Len(s.logs))]
    [] z \in 8..10 -> IF Len(s.logs) < 7 THEN [op |-> "child", i |-> i, f |-> Fields] ELSE [op |-> "get", i |-> i]
    [] z = 11 -> [op |-> "parse", i |-> i, t |-> RS(<<"info", "INFO", "Trace", "warn", "warning", "", "panic", "ERROR", "fatal", "debug", "err", " info">>)]
    [] z = 12 -> IF Len(s.fw) < 3 THEN [op |-> "forward", vendor |-> IF One(8) THEN RS(<<"fluent", "">>) ELSE "logstash", up |-> ~One(10), scheme |-> One(2),
                                        l |-> IF One(8) THEN "all" ELSE RS(<<"", "panic", "fatal", "error", "warn", "info", "debug", "trace">>)]
                 ELSE [op |-> "get", i |-> i]
    [] z = 13 -> [op |-> "get", i |-> i]
    [] z = 14 -> [op |-> "many", l |-> RS(<<2, 3, 4, 5, 6>>), n |-> R(1..20), ws |-> [j \in 1..R(1..4) |-> R(1..Len(s.logs))]]
    [] OTHER -> LET x == L IN IF x = 1 /\ (i = 0 \/ s.logs[IF i = 0 THEN 1 ELSE i].module = "") THEN Call(i, 2) ELSE Call(i, x)
After(o) == CASE o.op = "level" -> [s EXCEPT !.lv = o.l]
  [] o.op = "caller" -> [s EXCEPT !.caller = o.on]
  [] o.op = "glob" -> [s EXCEPT !.glob = o.i]
  [] o.op = "child" -> [s EXCEPT !.logs = Append(@, Over(s.logs[IF o.i = 0 THEN s.glob ELSE o.i], o.f))]
  [] o.op = "forward" -> IF o.vendor = "logstash" /\ o.up /\ o.l # "all" THEN [s EXCEPT !.fw = Append(@, 0)] ELSE s
  [] OTHER -> s
Init == k \in 1..1 /\ s = Start /\ hist = << >>
Next == \E o \in {Op} : s' = After(o) /\ hist' = Append(hist, o) /\ UNCHANGED k
MaxOps == atoi(IOEnv.GENLEN)
Say == Len(hist) >= MaxOps => PrintT("SCN" \o ToJson([ops |-> hist]))
Stop == Len(hist) < MaxOps
Spec == Init /\ [][Next]_<<s, hist, k>>
=============================================================================

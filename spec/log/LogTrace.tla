------------------------------ MODULE LogTrace ------------------------------
EXTENDS Log, TraceKit
VARIABLES s, sent                       \* sent[i]: what the forwarder i got, in order
One(b, x) == IF b THEN <<x>> ELSE << >>
Logger(e) == IF e.i = 0 THEN s.glob ELSE e.i
Set == /\ Ev.e = "set"
       /\ Ev.con = << >> /\ Ev.file = << >> /\ UNCHANGED sent
       /\ CASE Ev.op = "level" -> s' = [s EXCEPT !.lv = Ev.l]
            [] Ev.op = "console" -> s' = [s EXCEPT !.con = Ev.l]
            [] Ev.op = "mod" -> s' = SetMod(s, Ev.m, Ev.l)
            [] Ev.op = "caller" -> s' = [s EXCEPT !.caller = Ev.on]
            [] Ev.op = "file" -> s' = [s EXCEPT !.file = Ev.n]
            [] Ev.op = "glob" -> s' = [s EXCEPT !.glob = Ev.i]
            [] Ev.op = "child" -> s' = [s EXCEPT !.logs = Append(@, Over(s.logs[Logger(Ev)], Ev.f))]
            [] OTHER -> FALSE
\* what every logger says of the levels
Get == /\ Ev.e = "get" /\ UNCHANGED <<s, sent>>
       /\ Ev.lv = s.lv /\ Ev.cl = s.con
       /\ \A i \in DOMAIN Ev.mods : Ev.mods[i].l = ModLevel(s, Ev.mods[i].m)
Parse == /\ Ev.e = "parse" /\ UNCHANGED <<s, sent>>
         /\ IF \E v \in Levels : Name(v) = Ev.low
            THEN Ev.ok /\ Name(Ev.l) = Ev.low /\ Ev.name = Ev.low
            ELSE ~Ev.ok
Forward == /\ Ev.e = "forward"
           /\ LET ok == (Ev.l = "" \/ \E v \in Levels : Name(v) = Ev.l) /\ Ev.vendor = "logstash" /\ Ev.up
              IN /\ Ev.ok = ok
                 /\ IF ok THEN /\ s' = [s EXCEPT !.fw = Append(@, IF Ev.l = "" THEN Info ELSE CHOOSE v \in Levels : Name(v) = Ev.l)]
                               /\ sent' = Append(sent, << >>)
                    ELSE UNCHANGED <<s, sent>>
Log == /\ Ev.e = "log" /\ UNCHANGED s
       /\ LET f == s.logs[Logger(Ev)]  x == Line(s, f, Ev.l, Ev.msg)
          IN /\ Ev.con = One(OnConsole(s, f, Ev.l), x)
             /\ Ev.file = One(InFile(s, Ev.l), x)
             /\ Ev.panic = (Ev.l = Panic)
             /\ sent' = [i \in DOMAIN sent |-> sent[i] \o One(AtForwarder(s, i, Ev.l), Sent(s, f, Ev.l, Ev.raw))]
\* several at once: each entry whole and once, those of one in their order
Many == /\ Ev.e = "many" /\ UNCHANGED s
        /\ LET Want(w, in) == [j \in 1..(IF in THEN Ev.n ELSE 0) |-> j]
               f(w) == s.logs[Ev.ws[w]]
               Of(q, w) == LET mine == SelectSeq(q, LAMBDA r : r.w = w) IN [j \in DOMAIN mine |-> mine[j].j]
           IN /\ \A w \in DOMAIN Ev.ws : Of(Ev.con, w) = Want(w, OnConsole(s, f(w), Ev.l)) /\ Of(Ev.file, w) = Want(w, InFile(s, Ev.l))
              /\ \A q \in {Ev.con, Ev.file} : \A i \in DOMAIN q : q[i].w \in DOMAIN Ev.ws
                                                    /\ q[i].x = Line(s, f(q[i].w), Ev.l, "many")
        /\ sent' = [i \in DOMAIN sent |-> sent[i] \o One(AtForwarder(s, i, Ev.l), [many |-> Len(Ev.ws) * Ev.n])]
\* at the end what the forwarders got
Strip(q) == SelectSeq(q, LAMBDA r : "many" \notin DOMAIN r)
RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE (IF "many" \in DOMAIN Head(q) THEN Head(q).many ELSE 0) + Sum(Tail(q))
End == /\ Ev.e = "end" /\ UNCHANGED <<s, sent>>
       /\ Len(Ev.got) = Len(sent)
       /\ \A i \in DOMAIN sent : Ev.got[i] = Strip(sent[i]) /\ Ev.many[i] = Sum(sent[i])
\* the log file, after more lines than it may have: the lines are in the file and the ones before it, each once and in order,
\* the oldest gone only if a number of files is set; no file is longer than allowed; what is older than allowed is gone
Rotated == /\ Ev.e = "rotated" /\ UNCHANGED <<s, sent>>
           /\ Ev.big <= Ev.max * 1048576
           /\ Ev.big > Ev.max * 1048576 - 200000
           /\ LET m == Len(Ev.ids) IN Ev.ids = [i \in 1..m |-> Ev.n - m + i] /\ (Ev.backups = 0 => m = Ev.n)
           /\ IF Ev.backups = 0 THEN Ev.files >= 2 /\ Ev.old = (Ev.age = 0)
              ELSE Ev.files = Ev.backups /\ ~Ev.old
           /\ Ev.plain = IF Ev.compress THEN 0 ELSE Ev.files
Init == TKInit /\ s = Start /\ sent = << >>
Next == TKStep /\ (Set \/ Get \/ Parse \/ Forward \/ Log \/ Many \/ End \/ Rotated)
Spec == Init /\ [][Next]_<<sc, l, s, sent>>
=============================================================================

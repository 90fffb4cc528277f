------------------------------ MODULE SendGen ------------------------------
(* Relay messages of all size classes and what the node answers about them.     *)
EXTENDS Naturals, Integers, Sequences, TLC, Json

CONSTANTS MaxMsgs, Kinds

VARIABLES ph, kind, hd, msgs, cur, nm
vars == <<ph, kind, hd, msgs, cur, nm>>

A(a) == [a |-> a, c |-> 0]
AC(a, c) == [a |-> a, c |-> c]

\* sizes: base * limit + d
Sizes == IF kind = "icon" THEN {<<0, 1>>, <<0, 700>>, <<1, -1>>, <<1, 0>>, <<1, 1>>, <<2, -1>>, <<2, 0>>, <<2, 5>>, <<3, 7>>}
         ELSE {<<0, 1>>, <<0, 31>>, <<0, 32>>, <<0, 5000>>, <<1, 0>>}
Delays == {"overflow", "expired", "dup", "ok"}
Fatal  == IF kind = "icon" THEN {"future", "sys", "invalid", "gateway", "server"} ELSE {"err", "gaserr", "nonceerr"}
Waits  == IF kind = "icon" THEN {"pending", "executing"} ELSE {"pending"}
Codes  == IF kind = "icon" THEN {31, 32, 33, 42, 43, 57, 58, 59, 60, 98, 99, 100, 0} ELSE {10, 11, 12, 25, 26, 27, 28, 40}
Finals == {A("ok")} \cup
          (IF kind = "icon" THEN {A("notfound"), A("nocode"), A("gateway")} \cup {AC("code", c) : c \in Codes}
           ELSE {A("notfound"), A("txerr"), A("norcpt"), A("plain"), A("noerr")} \cup {AC("code", c) : c \in Codes} \cup {AC("code2", 26)})
BadStatus == IF kind = "icon" THEN {"err", "gateway", "badtx", "badrx", "badheight", "badextra"} ELSE {"err"}

Init == ph = "hd" /\ kind \in Kinds /\ hd = 0 /\ msgs = <<>> /\ cur = 0 /\ nm \in 1..MaxMsgs

Header == /\ ph = "hd"
          /\ \E g \in {"ok", "bad"}, step \in {0, 12345} :
             \E b \in BadStatus : hd' = [gs |-> A(IF g = "ok" THEN "ok" ELSE b), step |-> step]
          /\ ph' = "size" /\ UNCHANGED <<kind, msgs, cur, nm>>

Size == /\ ph = "size" /\ Len(msgs) < nm
        /\ \E s \in Sizes, w \in {TRUE, FALSE}, st \in {"ok", "ok2", "bad"} :
           \E b \in BadStatus :
             cur' = [base |-> s[1], d |-> s[2], sends |-> <<>>, res |-> <<>>, status |-> A(IF st = "bad" THEN b ELSE "ok"), wait |-> w]
        /\ ph' = "sends" /\ UNCHANGED <<kind, hd, msgs, nm>>

Sends == /\ ph = "sends"
         /\ \/ /\ kind = "icon" /\ Len(cur.sends) < 3
               /\ \E a \in Delays : cur' = [cur EXCEPT !.sends = Append(@, A(a))]
               /\ ph' = "sends"
            \/ /\ ph' = "res" /\ UNCHANGED cur
            \/ /\ \E k \in {"good", "good2", "fatal"} : \E a \in Fatal :
                    cur' = [cur EXCEPT !.sends = Append(@, A(IF k = "fatal" THEN a ELSE "ok"))]
               /\ ph' = "res"
         /\ UNCHANGED <<kind, hd, msgs, nm>>

Res == /\ ph = "res"
       /\ \/ /\ Len(cur.res) < 2 /\ \E a \in Waits : cur' = [cur EXCEPT !.res = Append(@, A(a))]
             /\ UNCHANGED <<ph, msgs>>
          \/ /\ \E a \in Finals : msgs' = Append(msgs, [cur EXCEPT !.res = Append(@, a)])
             /\ cur' = 0 /\ ph' = "size"
       /\ UNCHANGED <<kind, hd, nm>>

Finish == /\ ph = "size" /\ Len(msgs) = nm
          /\ PrintT("SCN" \o ToJson([kind |-> kind, gs |-> hd.gs, step |-> hd.step, msgs |-> msgs]))
          /\ ph' = "done" /\ UNCHANGED <<kind, hd, msgs, cur, nm>>

Next == Header \/ Size \/ Sends \/ Res \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

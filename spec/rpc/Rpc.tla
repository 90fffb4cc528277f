-------------------------------- MODULE Rpc ---------------------------------
(* What the answer of a node means.  status, content type, body -> outcome:     *)
(*  "result"  the result is handed over                                         *)
(*  "none"    fine, but there is no result                                      *)
(*  "rpcerr"  the error object of the node, with its code, message and data     *)
(*  "http"    the HTTP error, with its status and body                          *)
(*  "fail"    some other error                                                  *)
EXTENDS Integers, Sequences
Bodies == {"result", "nullresult", "error", "errordata", "both", "neither", "null", "empty", "cut", "text", "array", "badtype", "drop", "partial"}
Types == {"json", "jsoncharset", "upper", "list", "html", "none", "jsonrpc"}
IsJson(t) == t \in {"json", "jsoncharset", "upper", "list"}
Statuses == {200, 201, 400, 401, 404, 429, 500, 503}
Outcome(s, t, b) ==
  IF b = "drop" THEN "fail"
  ELSE IF s = 200 THEN
       CASE b = "result" -> "result" [] b \in {"nullresult", "neither"} -> "none"
         [] b \in {"error", "errordata", "both"} -> "rpcerr" [] OTHER -> "fail"
  ELSE IF ~IsJson(t) THEN "http"
  ELSE CASE b \in {"error", "errordata", "both"} -> "rpcerr"
         [] b \in {"cut", "text", "array"} -> "fail"
         [] OTHER -> "http"
\* how the clients of a node on ICON understand an error: code of the error
\* object and the sub code in its message
Overflow == {2001}
Expired == {2002}
Future == {2003}
Class(o, code, sub) ==
  CASE o = "http" -> "connect"
    [] o = "refused" -> "connect"
    [] o = "rpcerr" -> IF code = -31001 THEN "overflow"
                       ELSE IF code \in {-31002, -31003} THEN "pending"
                       ELSE IF code = -31000 /\ sub \in Overflow THEN "overflow"
                       ELSE IF code = -31000 /\ sub \in Expired THEN "expired"
                       ELSE IF code = -31000 /\ sub \in Future THEN "future"
                       ELSE "same"
    [] OTHER -> "same"
=============================================================================

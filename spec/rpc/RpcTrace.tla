------------------------------ MODULE RpcTrace ------------------------------
EXTENDS Rpc, TraceKit
Init == TKInit
Step(ev) == ev.panic = "" /\
  CASE ev.op = "do" ->
         /\ ev.sent                        \* one well-formed request reached the node, with method, params and headers
         /\ ev.out = (IF ev.b = "partial" /\ ev.s # 200 THEN ev.out ELSE Outcome(ev.s, ev.t, ev.b))
         /\ (ev.b = "partial" => ev.out \notin {"result", "none"})
         /\ (ev.out \in {"result", "rpcerr", "http"} /\ ev.b # "partial" => ev.same)
         /\ (ev.out \notin {"result", "none"} => ev.kept) \* the target keeps its contents
         /\ ev.class = Class(ev.out, ev.code, ev.sub)
    [] ev.op = "refused" -> ev.out = "fail" /\ ev.class = "connect"
    [] ev.op = "pre" -> ev.out = "fail" /\ ~ev.sent
    [] ev.op = "call" ->                  \* a method of the client of a node on ICON
         ev.sent /\ IF ev.b = "result" THEN ev.out = "result" /\ ev.same
                    ELSE IF ev.b = "error" THEN ev.out = "rpcerr" ELSE ev.out = "fail"
    [] OTHER -> FALSE
Next == TKStep /\ Step(Ev)
Spec == Init /\ [][Next]_<<sc, l>>
=============================================================================

------------------------------ MODULE BmvBridge ------------------------------
(* The verifier of the bridge (javascore/bmv/bridge): it trusts the relays but  *)
(* not their order.  A relay message is a sequence of receipts, each with a     *)
(* height and events [seq, msg]; what is behind the height or the sequence      *)
(* reached is skipped, a gap is refused, and the rest is handed over in order.  *)
EXTENDS Integers, Sequences

NotVerifiable == 26  Unknown == 25
Start(h) == h
RECURSIVE Events(_, _, _)
Events(es, n, acc) ==         \* n: sequence of the next message
  IF es = << >> THEN [ok |-> TRUE, n |-> n, ms |-> acc]
  ELSE IF Head(es).s < n THEN Events(Tail(es), n, acc)
  ELSE IF Head(es).s > n THEN [ok |-> FALSE, n |-> n, ms |-> << >>]
  ELSE Events(Tail(es), n + 1, Append(acc, Head(es).m))
RECURSIVE Receipts(_, _, _, _)
Receipts(rs, h, n, acc) ==
  IF rs = << >> THEN [ok |-> TRUE, h |-> h, ms |-> acc]
  ELSE IF Head(rs).h < h THEN Receipts(Tail(rs), h, n, acc)
  ELSE LET e == Events(Head(rs).es, n, acc)
       IN IF ~e.ok THEN [ok |-> FALSE, h |-> h, ms |-> << >>] ELSE Receipts(Tail(rs), Head(rs).h, e.n, e.ms)
\* o: by, cur, prev, seq (of the BMC), dam, rs
Relay(h, o) ==
  IF o.by # "bmc" \/ o.cur # "bmc" \/ o.prev # "src"
  THEN [ok |-> FALSE, h |-> h, ms |-> << >>, codes |-> IF o.cur = "junk" \/ o.prev = "junk" THEN {-100} ELSE {Unknown}]
  ELSE IF o.dam # "none" THEN [ok |-> FALSE, h |-> h, ms |-> << >>, codes |-> {-100}]
  ELSE LET r == Receipts(o.rs, h, o.seq + 1, << >>)
       IN [ok |-> r.ok, h |-> IF r.ok THEN r.h ELSE h, ms |-> r.ms, codes |-> {NotVerifiable}]
=============================================================================

----------------------------- MODULE AddrTrace ------------------------------
EXTENDS Addr, TraceKit
Init == TKInit
Icon == {<<105, 99, 111, 110>>, <<105, 99, 111, 110, 101, 101>>}
Step(ev) == ev.panic = "" /\
  CASE ev.op = "btp" ->
         /\ ev.str = ev.in
         /\ (WellFormed(ev.in) =>
               /\ ev.proto = Proto(ev.in) /\ ev.net = Net(ev.in) /\ ev.nid = Nid(ev.in)
               /\ ev.chain = Chain(ev.in) /\ ev.acct = Acct(ev.in) /\ ev.contract = Acct(ev.in)
               /\ (ev.valid = (Proto(ev.in) = <<98, 116, 112>> /\ Chain(ev.in) \in Icon /\ Acct(ev.in) # <<>>)))
         /\ (Slash \notin {GProto(ev.in)[i] : i \in 1..Len(GProto(ev.in))} =>
               /\ ev.proto = GProto(ev.in) /\ ev.net = GNet(ev.in) /\ ev.nid = GNid(ev.in)
               /\ ev.chain = GChain(ev.in) /\ ev.acct = GAcct(ev.in) /\ ev.contract = GAcct(ev.in)
               /\ (ev.valid = (GProto(ev.in) = <<98, 116, 112>> /\ GChain(ev.in) \in Icon /\ GAcct(ev.in) # <<>>)))
         /\ (ev.valid => ev.proto = <<98, 116, 112>> /\ ev.acct # <<>>)
    [] ev.op = "bytes" ->   \* an address given as bytes
         IF ev.in = <<>> \/ ev.in[1] > 1 THEN ~ev.ok
         ELSE IF Len(ev.in) > 21 THEN TRUE
         ELSE /\ ev.ok
              /\ LET b == <<ev.in[1]>> \o Pad20(Tail(ev.in)) IN
                 /\ ev.b = b /\ ev.id = Tail(b) /\ ev.text = AddrText(b) /\ ev.isc = (b[1] = 1)
                 /\ ev.json = b /\ ev.rlp = b /\ ev.eq
    [] ev.op = "text" ->    \* an address given as text
         IF IsAddrText(ev.in) THEN ev.ok /\ ev.b = AddrOf(ev.in)
         ELSE IF ~ev.strict /\ IsShortText(ev.in) THEN ev.ok /\ ev.b = ShortOf(ev.in)
         ELSE (ev.strict => ~ev.ok) /\ (~IsHex(ADigits(ev.in)) => ~ev.ok)
    [] ev.op = "key" -> ev.ok /\ ev.b = <<0>> \o ev.want
    [] ev.op = "cbytes" -> \* the client's text of an address
         ev.text = (IF Len(ev.in) = 21 /\ ev.in[1] < 2 THEN AddrText(ev.in) ELSE <<>>)
Next == TKStep /\ Step(Ev)
Spec == Init /\ [][Next]_<<sc, l>>
=============================================================================

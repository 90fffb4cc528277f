------------------------------ MODULE BmcTrace ------------------------------
(* Recorded calls of several linked BMCs against Bmc: each call is refused with an allowed *)
(* code and changes nothing, or has exactly the specified effect; after each call all that *)
(* the BMC shows is compared.                                                              *)
EXTENDS Bmc, TraceKit, SequencesExt

VARIABLE S
Chains == {"A", "B", "C"}
ASet(x) == {x[i] : i \in DOMAIN x}
Nets == <<"A", "B", "C", "D">>

SameObs(s, b) ==
  /\ b.links = LinkAddrs(s)
  /\ b.st = [i \in DOMAIN s.links |-> IF s.links[i].k \in Keys(s.vers) THEN <<s.links[i].v.rx, s.links[i].v.tx>> ELSE <<-14, -14>>]
  /\ b.relays = [i \in DOMAIN s.links |-> At(s.relays, s.links[i].v.addr, << >>)]
  /\ b.nids = [i \in DOMAIN s.links |-> LET a == s.links[i].v.addr IN
                 IF a \in DOMAIN s.nid THEN <<s.nid[a], s.off[s.nid[a]]>> ELSE <<0, -10>>]
  /\ ASet(b.routes) = Routes(s)
  /\ ASet(b.svcs) = {<<s.svcs[i].k, s.svcs[i].v>> : i \in DOMAIN s.svcs}
  /\ ASet(b.vers) = {<<s.vers[i].k, s.vers[i].v>> : i \in DOMAIN s.vers}
  /\ b.owners[1] = Root /\ Tail(b.owners) = s.owners
  /\ ASet(b.rew) = {<<k[1], k[2], s.rew[k]>> : k \in DOMAIN s.rew}
  /\ b.nsn = s.nsn /\ b.fh = s.fh /\ b.bal = s.bal
  /\ b.fees = [i \in DOMAIN Nets |-> IF Resolve(s, Nets[i]) = "" THEN <<-21>> ELSE FeeList(s, Nets[i], TRUE)]
  /\ b.fee = [i \in DOMAIN Nets |-> IF Resolve(s, Nets[i]) = "" THEN <<-21, -21>>
                                    ELSE <<Sum(FeeList(s, Nets[i], FALSE)), Sum(FeeList(s, Nets[i], TRUE))>>]

Step ==
  LET o == Ev.o  s == Fresh(S[Ev.ch])  e == Errs(s, o) IN
  /\ IF e # {} THEN /\ Ev.code \in e
                    /\ Ev.msgs = << >> /\ Ev.btp = << >> /\ Ev.oth = << >>
                    /\ S' = S
     ELSE LET x == Do(s, o) IN
          /\ Ev.code = -1
          /\ o.op = "sendMessage" => Ev.ret = x.ret
          /\ Ev.msgs = x.msgs /\ Ev.btp = x.btp /\ Ev.oth = x.oth /\ Ev.calls = x.calls
          /\ S' = [S EXCEPT ![Ev.ch] = Fresh(x)]
  /\ SameObs(S'[Ev.ch], Ev.obs)

Init == TKInit /\ S = [c \in Chains |-> New(c)]
Next == TKStep /\ Step
Spec == Init /\ [][Next]_<<sc, l, S>>
=============================================================================

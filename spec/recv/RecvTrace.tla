----------------------------- MODULE RecvTrace -----------------------------
(* What a receiver may tell about its source chain.  blocks[1] opens the        *)
(* network and carries nothing; the chain goes on with blocks of messages       *)
(* (first..last; first > last for none).  The receiver starts at the status     *)
(* (h, seq) of the destination and announces blocks (rs) in order; at any       *)
(* point it is asked for block updates (bu), a message proof (mp), the height   *)
(* of a sequence (hgt), and told what is final (fin).                           *)
EXTENDS TraceKit, Integers, FiniteSets

VARIABLES cfg, ann, fin, flt, closed
vars == <<cfg, ann, fin, flt, closed>>

Blk == cfg.blocks
NB  == Len(Blk)
B2  == cfg.kind = "btp2"
Idx(h) == CHOOSE i \in 1..NB : Blk[i].h = h
IsBlk(h) == \E i \in 1..NB : Blk[i].h = h
HasMsg(i) == Blk[i].first <= Blk[i].last
\* blocks that have to be announced from the status the receiver started with
Must(i) == /\ i > 1
           /\ \/ Blk[i].h > cfg.h /\ (B2 \/ HasMsg(i))
              \/ Blk[i].h = cfg.h /\ Blk[i].last > cfg.seq
\* delivered blocks may be forgotten
Gone(i) == \E f \in fin : Blk[i].h <= f.h /\ Blk[i].last <= f.seq
Known(i) == Blk[i].h \in ann
\* a block may be known just before it is announced
Maybe(i) == Known(i) \/ Blk[i].h > cfg.h \/ Must(i)
Of(seq) == {i \in 1..NB : Blk[i].first <= seq /\ seq <= Blk[i].last}
Faulty(h) == flt.at > 0 /\ h = flt.at

RsOk(e) ==
  /\ ~closed
  /\ IsBlk(e.h)
  /\ LET i == Idx(e.h) IN
     /\ e.seq = Blk[i].last
     /\ i > 1
     /\ e.h >= cfg.h
     /\ \A h \in ann : h < e.h
     /\ \A j \in 1..(i - 1) : Must(j) => Known(j)
     /\ (flt.at > 0 /\ flt.kind \notin {"header", "proof", "none"}) => e.h < flt.at

BuOk(e) ==
  /\ e.same
  /\ IF e.err THEN flt.kind \in {"header", "proof"} /\ flt.at > e.h
     ELSE
     LET n == Len(e.bus) IN
     /\ \A k \in 1..n :
          /\ e.bus[k].h > e.h /\ IsBlk(e.bus[k].h) /\ e.bus[k].moved /\ e.bus[k].typ = 1
          /\ k > 1 => e.bus[k - 1].h < e.bus[k].h
          /\ Maybe(Idx(e.bus[k].h))
          /\ B2 => (e.bus[k].len = Blk[Idx(e.bus[k].h)].bu /\ e.bus[k].len <= e.lim)
     /\ LET H == {e.bus[k].h : k \in 1..n}
            Miss == {i \in 1..NB : Blk[i].h > e.h /\ Must(i) /\ Known(i) /\ ~Gone(i) /\ Blk[i].h \notin H}
        IN IF B2
           THEN \* stops only at a block which is too big
                /\ Miss # {} => LET i == CHOOSE i \in Miss : \A j \in Miss : i <= j IN
                                Blk[i].bu > e.lim /\ \A h \in H : h < Blk[i].h
           ELSE Miss = {}

MsOk(its, from, to, h) ==
  /\ Len(its) = 1 /\ its[1].t = "mp" /\ its[1].ok
  /\ LET m == its[1].ms IN
     /\ Len(m) = to - from + 1
     /\ \A k \in 1..Len(m) :
          /\ m[k].seq = from + k - 1 /\ m[k].id = m[k].seq /\ m[k].h = h /\ m[k].ok
          /\ cfg.kind = "ethbr" => m[k].tx = cfg.txs[m[k].seq - cfg.off]

MpOk(e) ==
  LET S == {i \in Of(e.seq + 1) : B2 => Blk[i].h = e.h}
  IN
  /\ e.same /\ ~e.err
  /\ IF S = {} THEN e.nil
     ELSE LET i == CHOOSE i \in S : TRUE IN
       /\ (Known(i) /\ ~Gone(i) /\ (Blk[i].h > cfg.h \/ e.seq >= cfg.seq)) => ~e.nil
       /\ ~e.nil =>
          /\ e.typ = 3 /\ e.ok /\ e.moved /\ e.len = e.plen
          /\ e.to > e.seq /\ e.to <= Blk[i].last
          /\ MsOk(e.items, e.seq + 1, e.to, Blk[i].h)
          /\ e.len <= e.lim \/ e.to = e.seq + 1
          \* without a limit all of them; with one, as many as fit (a proof may get
          \* shorter with more messages, so the longest range that fits is not claimed)
          /\ e.fto = Blk[i].last
          /\ IF B2 THEN e.to < Blk[i].last => e.nlen > e.lim
             ELSE e.flen <= e.lim => e.to = Blk[i].last

\* the items of a relay message keep their order
MsgOk(e) ==
  /\ e.ok
  /\ Len(e.items) = Len(e.bus) + 1
  /\ e.items[1].t = "mp" /\ e.items[1].ok
  /\ \A k \in 1..Len(e.bus) : e.items[k + 1].t = "bu" /\ e.items[k + 1].ok /\ e.items[k + 1].h = e.bus[k].h

HgtOk(e) ==
  LET S == Of(e.seq) IN
  IF S = {} THEN e.h = 0
  ELSE LET i == CHOOSE i \in S : TRUE IN
       \/ e.h = Blk[i].h
       \/ e.h = 0 /\ (~Known(i) \/ Gone(i) \/ (Blk[i].h = cfg.h /\ e.seq <= cfg.seq))

Step(e) ==
  CASE e.op = "begin" -> cfg' = e /\ ann' = {} /\ fin' = {} /\ closed' = FALSE /\ flt' = [kind |-> "none", at |-> 0]
    [] e.op = "start" ->
        /\ e.ok <=> e.fault \notin {"netid", "netinfo"}
        /\ flt' = [kind |-> IF e.fault = "" THEN "none" ELSE e.fault, at |-> e.at]
        /\ UNCHANGED <<cfg, ann, fin, closed>>
    [] e.op = "req" -> e.h = cfg.h /\ e.nid /\ UNCHANGED vars
    [] e.op = "rs" -> RsOk(e) /\ ann' = ann \cup {e.h} /\ UNCHANGED <<cfg, fin, flt, closed>>
    [] e.op = "closed" -> flt.kind \notin {"none", "header", "proof"} /\ closed' = TRUE /\ UNCHANGED <<cfg, ann, fin, flt>>
    [] e.op = "sync" ->
        /\ e.dead => closed
        /\ ~closed => \A i \in 1..NB : (Blk[i].h <= e.h /\ Must(i)) => Known(i)
        /\ UNCHANGED vars
    [] e.op = "bu" -> BuOk(e) /\ UNCHANGED vars
    [] e.op = "bp" -> e.nil /\ ~e.err /\ UNCHANGED vars
    [] e.op = "mp" -> MpOk(e) /\ UNCHANGED vars
    [] e.op = "msg" -> MsgOk(e) /\ UNCHANGED vars
    [] e.op = "mix" -> e.ok /\ UNCHANGED vars
    [] e.op = "hgt" -> HgtOk(e) /\ UNCHANGED vars
    [] e.op = "fin" -> fin' = fin \cup {[h |-> e.h, seq |-> e.seq]} /\ UNCHANGED <<cfg, ann, flt, closed>>
    [] e.op = "over" -> UNCHANGED vars
    [] OTHER -> FALSE

Init == TKInit /\ cfg = 0 /\ ann = {} /\ fin = {} /\ flt = [kind |-> "none", at |-> 0] /\ closed = FALSE
Next == TKStep /\ Step(Ev)
Spec == Init /\ [][Next]_<<sc, l, vars>>
=============================================================================

--------------------------------- MODULE DB ---------------------------------
(* common/db: a database is a set of buckets, each a map; a LayerDB is an       *)
(* overlay that keeps its writes until it is flushed (written or discarded) and *)
(* is transparent afterwards.  Level 0 is the real database, level i > 0 a      *)
(* layer over level i-1.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Buckets, Keys
Absent == "_"    \* no such key
None == "?"      \* the layer says nothing about the key
VARIABLES lv     \* lv[i]: <<data, through>>: data[b][k]; through[b]: layer is transparent

Level(i) == lv[i + 1]
NoData == [b \in Buckets |-> [k \in Keys |-> None]]
RealInit == [data |-> [b \in Buckets |-> [k \in Keys |-> Absent]], through |-> [b \in Buckets |-> FALSE]]
LayerInit == [data |-> NoData, through |-> [b \in Buckets |-> FALSE]]

RECURSIVE View(_, _, _, _)
View(s, i, b, k) == IF i = 1 THEN s[1].data[b][k]
                    ELSE IF ~s[i].through[b] /\ s[i].data[b][k] # None THEN s[i].data[b][k]
                    ELSE View(s, i - 1, b, k)
Read(i, b, k) == View(lv, i + 1, b, k)

RECURSIVE Put(_, _, _, _, _)
Put(s, i, b, k, v) == IF i = 1 \/ ~s[i].through[b] THEN [s EXCEPT ![i].data[b][k] = v]
                      ELSE Put(s, i - 1, b, k, v)
Write(i, b, k, v) == lv' = Put(lv, i + 1, b, k, v)

\* write the entries in es (a set of <<b, k>>) of layer i to the level below
RECURSIVE Apply(_, _, _)
Apply(s, i, es) == IF es = {} THEN s
                   ELSE LET e == CHOOSE e \in es : TRUE
                        IN Apply(Put(s, i - 1, e[1], e[2], s[i].data[e[1]][e[2]]), i, es \ {e})
Entries(s, i) == {e \in Buckets \X Keys : ~s[i].through[e[1]] /\ s[i].data[e[1]][e[2]] # None}
Transparent(s, i) == [s EXCEPT ![i] = [data |-> NoData, through |-> [b \in Buckets |-> TRUE]]]
FlushTo(i, write) ==
  lv' = Transparent(IF write THEN Apply(lv, i + 1, Entries(lv, i + 1)) ELSE lv, i + 1)
\* a write below fails: some entries got there, no entry is lost from the layer's view
FlushFails(i) ==
  \E es \in SUBSET Entries(lv, i + 1) :
  \E bs \in SUBSET Buckets :
    /\ \A e \in Entries(lv, i + 1) : e[1] \in bs => e \in es
    /\ LET s == Apply(lv, i + 1, es) IN
       lv' = [s EXCEPT ![i + 1].through = [b \in Buckets |-> s[i + 1].through[b] \/ b \in bs],
                       ![i + 1].data = [b \in Buckets |-> IF b \in bs THEN NoData[b] ELSE s[i + 1].data[b]]]
=============================================================================

-------------------------- MODULE Conf_ParallelRead --------------------------
EXTENDS ParallelRead, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, judged
vars == << c, judged, parvars >>
Obs == Cases[c].obs
(* Obs.order: location and number of each row; Obs.same: equal in everything  *)
(* to what one worker reads.  Rows of different locations at one time may be  *)
(* in another order than in ParallelRead, if only they always are.            *)
Init == c \in 1..Len(Cases) /\ judged = FALSE /\ Begin(Cases[c].data, Cases[c].workers)
F(name, ok) == IF ok THEN {} ELSE {name}
Row(p) == p[1] \in Locs /\ p[2] \in DOMAIN data[p[1]]
Times(o) == [i \in DOMAIN o |-> IF Row(o[i]) THEN data[o[i][1]][o[i][2]] ELSE -1]
OfLoc(o, l) == SelectSeq(o, LAMBDA p : p[1] = l)
OrderOK(o) ==
  /\ Times(o) = [i \in DOMAIN table[1] |-> table[1][i][1]]
  /\ \A l \in Locs : OfLoc(o, l) = [i \in DOMAIN data[l] |-> << l, i >>]
Fails ==
  F("rows", Len(Obs.order) = Len(table[1])) \cup
  F("order", Len(Obs.order) = Len(table[1]) => OrderOK(Obs.order)) \cup
  F("same-as-with-one", Obs.same) \cup F("columns", Obs.columns)
Step == (IF Len(order) < workers THEN Finish(Cases[c].finish[Len(order) + 1]) ELSE Collect) /\ UNCHANGED << c, judged >>
Judge == /\ table # << >> /\ ~judged /\ judged' = TRUE
         /\ PrintT("V " \o ToString(c) \o " " \o ToJson(Fails))
         /\ UNCHANGED << c, parvars >>
Spec == Init /\ [][Step \/ Judge]_vars
=============================================================================

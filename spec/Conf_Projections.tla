-------------------------- MODULE Conf_Projections --------------------------
EXTENDS Projections, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, judged
vars == << c, judged, prjvars >>
Obs == Cases[c].obs
(* rows << time, type, name class, number, detail, processor >>; a detail of -2 *)
(* is one that stands for what the record says in other words                   *)
Rows == Obs.rows
Init == c \in 1..Len(Cases) /\ judged = FALSE /\ Begin(Cases[c].logs)
F(name, ok) == IF ok THEN {} ELSE {name}
Got(p) == SelectSeq(Rows, LAMBDA r : r[6] = p)
Column(s, i) == [k \in DOMAIN s |-> s[k][i]]
Want == [p \in Pes |-> Of(p)]
Have == [p \in Pes |-> Got(p)]
Fails ==
  LET full == \A p \in Pes : Len(Have[p]) = Len(Want[p]) IN
  F("columns", Obs.columns) \cup F("tree", Obs.tree) \cup
  F("origin", \A k \in DOMAIN Rows : Rows[k][6] \in Pes) \cup
  F("number-of-rows", full) \cup
  F("order", \A k \in 1..(Len(Rows) - 1) : Rows[k][1] <= Rows[k + 1][1]) \cup
  (IF ~full THEN {} ELSE
     F("times", \A p \in Pes : Column(Have[p], 1) = Column(Want[p], 1)) \cup
     F("types", \A p \in Pes : Column(Have[p], 2) = Column(Want[p], 2)) \cup
     F("names", \A p \in Pes : Column(Have[p], 3) = Column(Want[p], 3) /\ Column(Have[p], 4) = Column(Want[p], 4)) \cup
     F("attributes", \A p \in Pes : Column(Have[p], 5) = Column(Want[p], 5)))
Todo == { p \in Pes : p \notin done }
Step == Todo # {} /\ (LET p == CHOOSE p \in Todo : TRUE IN ReadRecord(p) \/ CloseLog(p)) /\ UNCHANGED << c, judged >>
Judge == /\ AllClosed /\ ~judged /\ judged' = TRUE
         /\ PrintT("V " \o ToString(c) \o " " \o ToJson(Fails))
         /\ UNCHANGED << c, prjvars >>
Spec == Init /\ [][Step \/ Judge]_vars
=============================================================================

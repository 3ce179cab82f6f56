--------------------------- MODULE Conf_CsvReader ---------------------------
EXTENDS CsvReader, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, judged
vars == << c, judged, csvvars >>
Obs == Cases[c].obs
Init == c \in 1..Len(Cases) /\ judged = FALSE /\ Begin(Cases[c].file)
F(name, ok) == IF ok THEN {} ELSE {name}
(* Obs.order: for each row of the table the line whose time it is at and whose values it has, 0 if none *)
Fails ==
  F("columns", Obs.columns) \cup
  F("one-row-per-line", Len(Obs.order) = Len(file)) \cup
  F("values", \A k \in DOMAIN Obs.order : Obs.order[k] # 0) \cup
  F("order", Len(Obs.order) = Len(file) /\ (\A k \in DOMAIN Obs.order : Obs.order[k] # 0) => Obs.order = table)
Step == Read /\ UNCHANGED << c, judged >>
Judge == /\ AllRead /\ ~judged /\ judged' = TRUE
         /\ PrintT("V " \o ToString(c) \o " " \o ToJson(Fails))
         /\ UNCHANGED << c, csvvars >>
Spec == Init /\ [][Step \/ Judge]_vars
=============================================================================

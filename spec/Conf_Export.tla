----------------------------- MODULE Conf_Export -----------------------------
EXTENDS Export, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, judged
vars == << c, judged, exvars >>
Obs == Cases[c].obs

Init == c \in 1..Len(Cases) /\ judged = FALSE /\ Begin(Cases[c].rows, Cases[c].per)
F(name, ok) == IF ok THEN {} ELSE {name}
PhaseText(p) == CASE p = 0 -> "B" [] p = 1 -> "E" [] p = 2 -> "i" [] OTHER -> ToString(p)
Expected == [i \in DOMAIN doc |-> << PhaseText(doc[i][1]), doc[i][2], doc[i][3], doc[i][4], doc[i][5], doc[i][6] >>]
Fails ==
  F("number-of-records", Len(Obs.doc) = Len(doc)) \cup
  F("records", Len(Obs.doc) = Len(doc) => Obs.doc = Expected) \cup
  F("destination", Obs.destination) \cup
  F("trace-kept", Obs.kept)
Step == (Write \/ Close) /\ UNCHANGED << c, judged >>
Judge == /\ closed /\ ~judged /\ judged' = TRUE
         /\ PrintT("V " \o ToString(c) \o " " \o ToJson(Fails))
         /\ UNCHANGED << c, exvars >>
Spec == Init /\ [][Step \/ Judge]_vars
=============================================================================

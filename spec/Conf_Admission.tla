--------------------------- MODULE Conf_Admission ---------------------------
EXTENDS Admission, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, judged
vars == << c, judged, advars >>
Case == Cases[c]
Obs == Case.obs
Set(s) == { s[i] : i \in DOMAIN s }
Init == c \in 1..Len(Cases) /\ judged = FALSE /\ Begin(Case.format, Case.isdir, Set(Case.dir))
F(name, ok) == IF ok THEN {} ELSE {name}
(* Obs.outcome: "read", or the kind of error; Obs.logs: the logs whose events are in the table *)
Fails ==
  IF outcome = "read"
  THEN F("taken", Obs.outcome = "read") \cup
       F("all-read", format = "projections" /\ Obs.outcome = "read" => Set(Obs.logs) = checked) \cup
       F("events", format = "hpctoolkit" /\ Obs.outcome = "read" => Obs.complete)
  ELSE F("refused", Obs.outcome # "read") \cup
       F("value-error", format = "projections" => Obs.outcome \in {"read", "ValueError"}) \cup
       F("left-alone", Obs.kept)
(* one way of looking at the entries, for all of them come to the same *)
First == CHOOSE x \in dir \ looked : TRUE
NextLog == CHOOSE i \in 0..(Described[3] - 1) : << "log", Described[2], i >> \notin checked
NextFile == CHOOSE f \in Files : << "db", f, f >> \notin checked
Step ==
  /\ outcome = "open"
  /\ IF ~isdir THEN NoDirectory
     ELSE IF format = "projections"
     THEN IF ~AllLooked THEN Look(First)
          ELSE IF found = {} THEN NoneFound
          ELSE IF checked = Stated THEN Accept ELSE CheckLog(NextLog)
     ELSE IF checked = { << "db", f, f >> : f \in Files } THEN Accept ELSE CheckFile(NextFile)
  /\ UNCHANGED << c, judged >>
Judge == /\ outcome # "open" /\ ~judged /\ judged' = TRUE
         /\ PrintT("V " \o ToString(c) \o " " \o ToJson(Fails))
         /\ UNCHANGED << c, advars >>
Spec == Init /\ [][Step \/ Judge]_vars
=============================================================================

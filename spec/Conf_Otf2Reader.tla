--------------------------- MODULE Conf_Otf2Reader ---------------------------
(* The rows that were read are followed one by one: each has to be the next *)
(* event of its location, and a possible next one.                          *)
EXTENDS Otf2Reader, TLC, Json, IOUtils
CONSTANT What          \* "events" or "metrics": the columns judged
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, bad, judged
vars == << c, k, bad, judged, otfvars >>
Obs == Cases[c].obs
(* rows << time, kind, what, detail, process, thread, readings >> *)
Rows == Obs.rows

Init == c \in 1..Len(Cases) /\ k = 1 /\ bad = {} /\ judged = FALSE /\ Begin(Cases[c].arch)
F(name, ok) == IF ok THEN {} ELSE {name}
LocOf(r) == { l \in Locs : Cpu(l) /\ arch[l].proc = r[5] /\ Thread(l) = r[6] }
ReadingAhead == { l \in Locs : Cpu(l) /\ HasNext(l) /\ IsReading(Next1(l)) }

(* readings are taken as soon as they are there, and other locations skipped *)
Drain == /\ ReadingAhead # {} /\ TakeReading(CHOOSE l \in ReadingAhead : TRUE)
         /\ UNCHANGED << c, k, bad, judged >>
Skips == /\ ReadingAhead = {} /\ \E l \in Locs : ~Cpu(l) /\ HasNext(l) /\ { m \in Locs : m < l /\ ~Cpu(m) /\ HasNext(m) } = {} /\ Skip(l)
         /\ UNCHANGED << c, k, bad, judged >>
Ready == ReadingAhead = {} /\ { l \in Locs : ~Cpu(l) /\ HasNext(l) } = {}

Row == Rows[k]
Follow ==
  /\ Ready /\ k <= Len(Rows) /\ bad = {}
  /\ k' = k + 1
  /\ \E l \in LocOf(Row) :
       /\ TakeEvent(l)
       /\ LET r == table'[Len(table')] IN
          bad' = IF What = "events"
                 THEN F("time", Row[1] = r[1]) \cup F("kind", Row[2] = r[2]) \cup F("name", Row[3] = r[3]) \cup F("attributes", Row[4] = r[4])
                 ELSE F("readings", { Row[7][i] : i \in DOMAIN Row[7] } = r[6])
  /\ UNCHANGED << c, judged >>
Wrong ==
  /\ Ready /\ k <= Len(Rows) /\ bad = {}
  /\ bad' = IF LocOf(Row) = {} THEN {"origin"}
            ELSE IF \A l \in LocOf(Row) : ~HasNext(l) THEN {"too-many-rows"}
            ELSE IF \A l \in LocOf(Row) : ~ENABLED TakeEvent(l) THEN {"order"} ELSE {}
  /\ bad' # {}
  /\ UNCHANGED << c, k, judged, otfvars >>
Judge ==
  /\ Ready /\ IF bad = {} THEN k > Len(Rows) ELSE TRUE
  /\ ~judged /\ judged' = TRUE
  /\ PrintT("V " \o ToString(c) \o " " \o ToJson(bad \cup
       (IF bad = {} THEN F("every-event", AllRead) ELSE {}) \cup
       (IF What = "events" THEN F("columns", Obs.columns) \cup F("tree", Obs.tree) ELSE F("metric-columns", Obs.metrics))))
  /\ UNCHANGED << c, k, bad, otfvars >>
Spec == Init /\ [][Drain \/ Skips \/ Follow \/ Wrong \/ Judge]_vars
=============================================================================

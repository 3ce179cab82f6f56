-------------------------- MODULE Conf_Definitions --------------------------
(* Conformance of the definitions table.  Obs.rows are its rows as          *)
(* definitions; Obs.events says for every event that refers to a region:    *)
(* the reference, and the event's name as a plain value.                    *)
EXTENDS Definitions, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE c
vars == << c, dfvars >>
Obs == Cases[c].obs
Init == c \in 1..Len(Cases) /\ defs = << >> /\ mode = "record" /\ left = {} /\ at = 0 /\ table = << >>

F(name, ok) == IF ok THEN {} ELSE {name}
Fails ==
  F("one-row-each", SameRows(Obs.rows, table)) \cup
  F("columns", Obs.columns) \cup
  F("references-resolve", \A x \in DOMAIN Obs.rows : \A r \in RefsOf(Obs.rows[x]) : Resolves(Obs.rows, r)) \cup
  F("events-refer", \A e \in DOMAIN Obs.events :
       LET r == Obs.events[e][1] IN
       /\ r[1] = 1 /\ Resolves(Obs.rows, << r[2], r[3] >>)
       /\ LET x == CHOOSE y \in RowsNamed(Obs.rows, r[2], r[3]) : TRUE IN
          IF Obs.rows[x][3] = << >> THEN FALSE ELSE Obs.rows[x][3][1] = << 0, Obs.events[e][2] >>)

Step ==
  \/ Len(defs) < Len(Cases[c].defs) /\ Define(Cases[c].defs[Len(defs) + 1])
  \/ Len(defs) = Len(Cases[c].defs) /\ StartReading
  \/ left # {} /\ (Look(SetMin(left)) \/ KindDone(SetMin(left)))
  \/ AllRead
Judge ==
  /\ mode = "done"
  /\ PrintT("V " \o ToString(c) \o " " \o ToJson(Fails))
  /\ mode' = "judged" /\ UNCHANGED << defs, left, at, table >>
Spec == Init /\ [][(Step \/ Judge) /\ UNCHANGED c]_vars
=============================================================================

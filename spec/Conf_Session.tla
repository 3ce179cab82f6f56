---------------------------- MODULE Conf_Session ----------------------------
(* A recorded session is followed call by call.  Values are identified by   *)
(* numbers: fresh[k] is the result of step k's analysis as the only one     *)
(* called on an equal trace, and the cols of a step are the columns that    *)
(* are in the table after it, by name and value; its lists are the names    *)
(* listed as calculated and those of the columns there, per kind of metric. *)
EXTENDS Val, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, known, bad
vars == << c, pos, known, bad >>
Steps == Cases[c].steps

Init == c \in 1..Len(Cases) /\ pos = 0 /\ known = << >> /\ bad = {}

F(name, ok) == IF ok THEN {} ELSE {name}
Columns(s) == { x[1] : x \in Range(s.cols) }
ValueIn(s, col) == (CHOOSE x \in Range(s.cols) : x[1] = col)[2]

Call ==
  /\ pos >= 0 /\ pos < Len(Steps)
  /\ LET s == Steps[pos + 1] IN
     /\ bad' = bad \cup F("result", s.result = Cases[c].fresh[pos + 1])
                   \cup F("recorded", s.recorded = Cases[c].recorded)
                   \cup F("columns-kept", \A x \in DOMAIN known : x \in Columns(s) /\ ValueIn(s, x) = known[x])
                   \cup F("metrics-listed", \A l \in Range(s.lists) : Range(l.listed) = Range(l.there) /\ Len(l.listed) = Len(l.there))
     /\ known' = [x \in Columns(s) |-> ValueIn(s, x)]
  /\ pos' = pos + 1 /\ UNCHANGED c

Judge ==
  /\ pos = Len(Steps)
  /\ PrintT("V " \o ToString(c) \o " " \o ToJson(bad))
  /\ pos' = -1 /\ UNCHANGED << c, known, bad >>

Spec == Init /\ [][Call \/ Judge]_vars
=============================================================================

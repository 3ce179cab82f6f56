------------------------- MODULE Conf_HpctTimeline -------------------------
EXTENDS HpctTimeline, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, judged
vars == << c, judged, htvars >>
Obs == Cases[c].obs
Got == Obs.rows       \* << time, type, context, line >>
Init == c \in 1..Len(Cases) /\ judged = FALSE /\ Begin(Cases[c].ctxs, Cases[c].lines, Cases[c].finish)
F(name, ok) == IF ok THEN {} ELSE {name}
Of(l) == SelectSeq(Got, LAMBDA r : r[4] = l)
Column(s, i) == [k \in DOMAIN s |-> s[k][i]]
Fails ==
  LET have == [l \in DOMAIN lines |-> Of(l)]
      full == \A l \in DOMAIN lines : Len(have[l]) = Len(rows[l]) IN
  F("columns", Obs.columns) \cup
  F("origin", \A k \in DOMAIN Got : Got[k][4] \in DOMAIN lines) \cup
  F("order", \A k \in 1..(Len(Got) - 1) : Got[k][1] <= Got[k + 1][1]) \cup
  F("number-of-rows", full) \cup
  (IF ~full THEN {} ELSE
     F("contexts", \A l \in DOMAIN lines : Column(have[l], 3) = Column(rows[l], 3)) \cup
     F("types", \A l \in DOMAIN lines : Column(have[l], 2) = Column(rows[l], 2)) \cup
     F("times", \A l \in DOMAIN lines : Column(have[l], 1) = Column(rows[l], 1)))
Todo == { l \in DOMAIN lines : l \notin done }
Step == Todo # {} /\ (LET l == CHOOSE l \in Todo : TRUE IN Leave(l) \/ Enter(l) \/ Reach(l) \/ End(l)) /\ UNCHANGED << c, judged >>
Judge == /\ AllDone /\ ~judged /\ judged' = TRUE
         /\ PrintT("V " \o ToString(c) \o " " \o ToJson(Fails))
         /\ UNCHANGED << c, htvars >>
Spec == Init /\ [][Step \/ Judge]_vars
=============================================================================

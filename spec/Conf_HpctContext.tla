-------------------------- MODULE Conf_HpctContext --------------------------
EXTENDS HpctContext, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, judged
vars == << c, judged, hcvars >>
Obs == Cases[c].obs
(* seen: for each context with a row, << context, node around its node, its level, *)
(* name class, name, file, line, type >>; tree: << node, children >> from the tree *)
Init == c \in 1..Len(Cases) /\ judged = FALSE /\ Begin(Cases[c].ctxs, Cases[c].fns)
F(n, ok) == IF ok THEN {} ELSE {n}
With == { k \in DOMAIN node : HasNode(k) }
Seen == Range(Obs.seen)
RECURSIVE LevelOf(_)
LevelOf(k) == IF up[k] = 0 THEN 0 ELSE 1 + LevelOf(up[k])
Fails ==
  LET ids == { s[1] : s \in Seen }
      known == { s \in Seen : s[1] \in With } IN
  F("nodes", ids = With) \cup
  F("parents", \A s \in known : s[2] = up[s[1]]) \cup
  F("levels", \A s \in known : s[3] = LevelOf(s[1])) \cup
  F("names", \A s \in known : << s[4], s[5] >> = name[s[1]]) \cup
  F("source", \A s \in known : << s[6], s[7] >> = (IF Kind(s[1]) = Entry THEN NoSource ELSE src[s[1]])) \cup
  F("event-types", \A s \in known : s[8] = (IF Kind(s[1]) = Loop THEN 1 ELSE 0)) \cup
  F("roots", Range(Obs.roots) = { k \in With : up[k] = 0 } /\ Len(Obs.roots) = Cardinality(Range(Obs.roots))) \cup
  F("children", /\ { t[1] : t \in Range(Obs.tree) } = With
                /\ Len(Obs.tree) = Cardinality(With)
                /\ \A t \in Range(Obs.tree) : /\ Range(t[2]) = { k \in With : up[k] = t[1] }
                                              /\ Len(t[2]) = Cardinality(Range(t[2])))
Step == (ReadEntry \/ ReadFunction \/ ReadLoop \/ ReadInner) /\ UNCHANGED << c, judged >>
Judge == /\ AllRead /\ ~judged /\ judged' = TRUE
         /\ PrintT("V " \o ToString(c) \o " " \o ToJson(Fails))
         /\ UNCHANGED << c, hcvars >>
Spec == Init /\ [][Step \/ Judge]_vars
=============================================================================

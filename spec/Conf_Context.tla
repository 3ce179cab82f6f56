---------------------------- MODULE Conf_Context ----------------------------
(* Conformance for the calling context tree.  The library's nodes are       *)
(* numbered by the first row that refers to them, as the specification's.   *)
EXTENDS Context, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos
vars == << c, pos, ctvars >>
Obs == Cases[c].obs

Init == c \in 1..Len(Cases) /\ pos = 1 /\ Begin(Cases[c].rows)

Fails ==
  LET F(name, ok) == IF ok THEN {} ELSE {name}
      K == DOMAIN nodes
      same == Len(Obs.parent) = Len(nodes)
  IN F("recorded-rows-kept", Obs.rows = tr) \cup
     F("node-of-row", Obs.node = node) \cup
     F("no-other-nodes", Obs.unreferenced = 0 /\ same) \cup
     F("unequal-nodes", Obs.distinct = Len(Obs.parent)) \cup
     F("parent", same => \A k \in K : Obs.parent[k] = nodes[k][1]) \cup
     F("level", same => \A k \in K : Obs.level[k] = Level(k)) \cup
     F("children", same => \A k \in K : Range(Obs.kids[k]) = Children(k) /\ Len(Obs.kids[k]) = Cardinality(Children(k))) \cup
     F("roots", Range(Obs.roots) = Roots /\ Len(Obs.roots) = Cardinality(Roots))

Step ==
  \/ pos <= N /\ Take(pos) /\ pos' = pos + 1 /\ UNCHANGED c
  \/ pos > N /\ Finish /\ UNCHANGED << c, pos >>

Judge ==
  /\ phase = "done"
  /\ PrintT("V " \o ToString(c) \o " " \o ToJson(Fails))
  /\ phase' = "judged"
  /\ UNCHANGED << c, pos, tr, seen, open, nodes, node >>

Spec == Init /\ [][Step \/ Judge]_vars
=============================================================================

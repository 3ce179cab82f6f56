--------------------------- MODULE Conf_Location ---------------------------
(* Conformance for location independence.  A case is one recording and      *)
(* variants of it: other interleavings (each location's clock shifted), and  *)
(* parts of it (some locations only).  A variant lists the rows of the full *)
(* recording in its own order; that order has to be a schedule of            *)
(* CallStack's cursors.  The library computed all of them; what it says      *)
(* about a location has to be the same everywhere.                           *)
EXTENDS CallStack, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, v, pos
vars == << c, v, pos, csvars >>
Variant == Cases[c].variants[v]
Order == Variant.order              \* rows of the full recording, in the variant's order
Schedule == Variant.schedule        \* Order, then the rows it leaves out

Init ==
  /\ c \in 1..Len(Cases)
  /\ v \in 1..Len(Cases[c].variants)
  /\ pos = 1
  /\ Begin(Cases[c].rows, << >>)

Step ==
  \/ pos <= N /\ Ready(Schedule[pos]) /\ Take(Schedule[pos]) /\ pos' = pos + 1 /\ UNCHANGED << c, v >>
  \/ pos > N /\ StartNest /\ pos' = 1 /\ UNCHANGED << c, v >>
  \/ pos > N /\ Finish /\ UNCHANGED << c, v, pos >>

(* a row number of the variant, as a row of the full recording *)
Row(k) == IF k = 0 THEN 0 ELSE IF k \in DOMAIN Order THEN Order[k] ELSE -9
Rows2(s) == [j \in DOMAIN s |-> Row(s[j])]

Full == Cases[c].obs
Fails ==
  LET o == Variant.obs
      Same(name, P(_)) == IF \A k \in DOMAIN Order : P(k) THEN {} ELSE {name}
  IN Same("pairing", LAMBDA k : Row(o.mate[k]) = Full.mate[Order[k]]) \cup
     Same("depth", LAMBDA k : o.dep[k] = Full.dep[Order[k]]) \cup
     Same("parent", LAMBDA k : Row(o.par[k]) = Full.par[Order[k]]) \cup
     Same("children", LAMBDA k : Rows2(o.kids[k]) = Full.kids[Order[k]]) \cup
     Same("inclusive", LAMBDA k : \A m \in DOMAIN Full.inc : o.inc[m][k] = Full.inc[m][Order[k]]) \cup
     Same("exclusive", LAMBDA k : \A m \in DOMAIN Full.exc : o.exc[m][k] = Full.exc[m][Order[k]]) \cup
     Same("context", LAMBDA k : o.path[k] = Full.path[Order[k]])

Judge ==
  /\ phase = "done"
  /\ PrintT("V " \o ToString(c) \o "." \o ToString(v) \o " " \o ToJson(Fails))
  /\ phase' = "judged"
  /\ UNCHANGED << c, v, pos, tr, met, seen, open, mate, par, dep, kids, inc, exc >>

Spec == Init /\ [][Step \/ Judge]_vars
=============================================================================

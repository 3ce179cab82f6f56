--------------------------- MODULE Conf_CallStack ---------------------------
(* Conformance: each recorded case is run through CallStack's own actions,  *)
(* row by row in recorded order, and what the library computed for it is    *)
(* judged against the state reached.  One verdict per case, always.         *)
EXTENDS CallStack, TLC, Json, IOUtils

CONSTANT Prop

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, pos
vars == << c, pos, csvars >>
Obs == Cases[c].obs

Init ==
  /\ c \in 1..Len(Cases)
  /\ pos = 1
  /\ Begin(Cases[c].rows, Cases[c].met)

Fails ==
  LET F(name, ok) == IF ok THEN {} ELSE {name} IN
  F("recorded-rows-kept", Obs.rows = tr) \cup
  F("recorded-columns-kept", Obs.met = met) \cup
  CASE Prop = "C01" ->
         F("partner-row", Obs.mate = mate) \cup
         F("partner-time", Obs.mts = [i \in Rows |-> IF mate[i] = 0 THEN Missing ELSE Num(TimeOf(mate[i]))])
    [] Prop = "C02" ->
         F("parent", Obs.par = par) \cup F("depth", Obs.dep = dep) \cup F("children", Obs.kids = kids)
    [] Prop = "C04" ->
         F("inclusive", \A k \in DOMAIN Obs.cols : Obs.inc[k] = inc[Obs.cols[k]])
    [] Prop = "C05" ->
         F("exclusive", \A k \in DOMAIN Obs.cols : Obs.exc[k] = exc[Obs.cols[k]])

Step ==
  \/ pos <= N /\ Take(pos) /\ pos' = pos + 1 /\ UNCHANGED c
  \/ pos > N /\ StartNest /\ pos' = 1 /\ UNCHANGED c
  \/ pos > N /\ Finish /\ UNCHANGED << c, pos >>

Judge ==
  /\ phase = "done"
  /\ PrintT("V " \o ToString(c) \o " " \o ToJson(Fails))
  /\ phase' = "judged"
  /\ UNCHANGED << c, pos, tr, met, seen, open, mate, par, dep, kids, inc, exc >>

Spec == Init /\ [][Step \/ Judge]_vars
=============================================================================

---------------------------- MODULE Conf_Formats ----------------------------
(* Conformance: the streams that were written are merged in the order in    *)
(* which the library has read them, as far as that is an order of time, and *)
(* its analyses are judged against those of the specification.              *)
EXTENDS Formats, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos
vars == << c, pos, fmvars, csvars, pfvars >>
Case == Cases[c]
Obs == Case.obs

Init ==
  /\ c \in 1..Len(Cases) /\ pos = 1
  /\ BeginReading(Case.streams, Case.cols)
  /\ proc = Case.proc /\ grp = << >> /\ what = Case.what /\ fed = {} /\ acc = [m \in 1..Len(Case.what) |-> << >>] /\ tabs = << >>

F(name, ok) == IF ok THEN {} ELSE {name}
M == DOMAIN what

(* the next row of the table is an event that may come next *)
Row == Obs.rows[pos]
Fits ==
  IF pos > Len(Obs.rows) \/ Waiting = {} THEN FALSE
  ELSE IF Row[1] \notin Turn THEN FALSE
  ELSE SubSeq(streams[Row[1]][at[Row[1]] + 1], 1, 3) = SubSeq(Row, 2, 4)
Complete == Waiting = {} /\ pos = Len(Obs.rows) + 1

PerProcess ==
  /\ Len(Obs.per) = Cardinality(Keys(1))
  /\ { << x[1], x[2] >> : x \in Range(Obs.per) } = Keys(1)
  /\ \A x \in Range(Obs.per) : x[3] = [m \in M |-> Num(acc[m][<< x[1], x[2] >>])]

Fails ==
  F("columns", Obs.met = met) \cup
  F("partner-row", Obs.mate = mate) \cup
  F("parent", Obs.par = par) \cup F("depth", Obs.dep = dep) \cup F("children", Obs.kids = kids) \cup
  F("inclusive", Obs.inc = inc) \cup F("exclusive", Obs.exc = exc) \cup
  F("per-process", PerProcess) \cup
  F("rows-kept", Obs.kept) \cup
  F("tree-as-built", Obs.tree)

Verdict(f) ==
  /\ PrintT("V " \o ToString(c) \o " " \o ToJson(f))
  /\ phase' = "judged"
  /\ UNCHANGED << c, pos, tr, met, seen, open, mate, par, dep, kids, inc, exc, fmvars, pfvars >>

Merging ==
  /\ phase = "merge"
  /\ IF Fits THEN Read(Row[1]) /\ pos' = pos + 1 /\ UNCHANGED << c, pfvars >>
     ELSE IF Complete
     THEN /\ StartWork /\ pos' = 1 /\ grp' = [i \in Rows |-> NameOf(i)]
          /\ UNCHANGED << c, proc, what, fed, acc, tabs >>
     ELSE Verdict({"rows"})

Step ==
  \/ pos <= N /\ Take(pos) /\ pos' = pos + 1 /\ UNCHANGED << c, fmvars, pfvars >>
  \/ pos > N /\ StartNest /\ pos' = 1 /\ UNCHANGED << c, fmvars, pfvars >>
  \/ pos > N /\ Finish /\ pos' = 1 /\ UNCHANGED << c, fmvars, pfvars >>
  \/ pos <= N /\ Feed(pos) /\ pos' = pos + 1 /\ UNCHANGED << c, fmvars, csvars >>
  \/ pos <= N /\ phase = "done" /\ ~IsEnter(pos) /\ pos' = pos + 1 /\ UNCHANGED << c, fmvars, csvars, pfvars >>

Judge == phase = "done" /\ pos = N + 1 /\ Verdict(Fails)

Spec == Init /\ [][Merging \/ Step \/ Judge]_vars
=============================================================================

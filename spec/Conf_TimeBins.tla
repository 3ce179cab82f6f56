--------------------------- MODULE Conf_TimeBins ---------------------------
(* Conformance of the time profile.  Obs.bins has, per interval, start, end, *)
(* idle and the amounts per name as model values; amounts of absent columns  *)
(* do not occur: Obs.names are the names that have a column.                 *)
EXTENDS TimeBins, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos
vars == << c, pos, csvars, tbvars >>
Obs == Cases[c].obs
P == Cases[c].procs     \* number of processes that entered a function

Init ==
  /\ c \in 1..Len(Cases) /\ pos = 1
  /\ Begin(Cases[c].rows, Cases[c].met)
  /\ nb = 0 /\ clock = << >> /\ swept = << >> /\ stk = << >> /\ amt = << >>

F(name, ok) == IF ok THEN {} ELSE {name}
(* as shown, in units *)
Value(x) == LET s == Shown(x, Cases[c].un, Cases[c].ud) IN
            IF Cases[c].normalized THEN Ratio(s, Capacity(P)) ELSE Ratio(s, nb)
Judged(x, cell) == (Cases[c].normalized /\ Capacity(P) = 0) \/ cell = Value(x)
ProcsEntered == Cardinality({ Cases[c].proc[LocOf(i)] : i \in { j \in Rows : IsEnter(j) } })

Fails ==
  IF ~WellNested THEN {} ELSE
  F("recorded-rows-kept", Obs.rows = tr) \cup
  F("processes", P = ProcsEntered) \cup
  F("intervals", /\ Len(Obs.bins) = nb
                 /\ \A b \in 1..nb : /\ Obs.bins[b][1] = Ratio(nb * FirstT + (b - 1) * Span, nb)
                                     /\ Obs.bins[b][2] = Ratio(nb * FirstT + b * Span, nb)) \cup
  F("functions", Len(Obs.names) = Cardinality(Functions) /\ Range(Obs.names) = Functions) \cup
  F("amounts", \A b \in DOMAIN Obs.bins : \A k \in DOMAIN Obs.names : Judged(Amount(b, Obs.names[k]), Obs.bins[b][4][k])) \cup
  F("idle", \A b \in DOMAIN Obs.bins : Judged(Idle(b, P), Obs.bins[b][3]))

Step ==
  \/ pos <= N /\ Take(pos) /\ pos' = pos + 1 /\ UNCHANGED << c, tbvars >>
  \/ pos > N /\ StartNest /\ pos' = 1 /\ UNCHANGED << c, tbvars >>
  \/ pos > N /\ Finish /\ pos' = 1 /\ UNCHANGED << c, tbvars >>
  \/ phase = "done" /\ nb = 0 /\ BeginBins(Cases[c].nb) /\ UNCHANGED << c, pos, csvars >>
  \/ /\ phase = "done" /\ nb > 0 /\ Span > 0 /\ pos <= N
     /\ \/ S(pos) > clock[LocOf(pos)] /\ RunClock(LocOf(pos), pos) /\ UNCHANGED << c, pos, csvars >>
        \/ PassEvent(LocOf(pos), pos) /\ pos' = pos + 1 /\ UNCHANGED << c, csvars >>

Judge ==
  /\ phase = "done" /\ nb > 0 /\ (pos > N \/ Span = 0)
  /\ PrintT("V " \o ToString(c) \o " " \o ToJson(Fails))
  /\ phase' = "judged"
  /\ UNCHANGED << c, pos, tr, met, seen, open, mate, par, dep, kids, inc, exc, tbvars >>

Spec == Init /\ [][Step \/ Judge]_vars
=============================================================================

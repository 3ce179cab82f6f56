--------------------------- MODULE Conf_Patterns ---------------------------
(* Conformance of pattern detection: Obs.patterns has the rows of each      *)
(* pattern in order.  Which windows these are is not recorded; the patterns *)
(* have to be those of a list of windows that could be picked in turn.      *)
EXTENDS Patterns, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos
vars == << c, pos, csvars, pavars >>
Obs == Cases[c].obs

Init ==
  /\ c \in 1..Len(Cases) /\ pos = 1
  /\ Begin(Cases[c].rows, Cases[c].met)
  /\ ask = [start |-> 0] /\ gat = -1 /\ series = << >> /\ stat = << >> /\ prof = << >> /\ list = << >>

Windows(p) == { k \in 1..NWin : Shown(k) = Range(p) }
InOrder(p) == \A a, b \in DOMAIN p : a < b => p[a] < p[b]

RECURSIVE Follows(_, _, _, _)
Follows(ws, p, W, limit) ==
  IF p > Len(W) THEN MayEnd(ws, limit)
  ELSE \E k \in W[p] : MayFollow(ws, k, limit) /\ Follows(Append(ws, k), p + 1, W, limit)

Listed(W) ==
  IF Len(W) = 0 THEN MayBeNothing
  ELSE \E k \in W[1] : MayBeFirst(k) /\ Follows(<< k >>, 2, W, Limit(k))

F(name, ok) == IF ok THEN {} ELSE {name}
Fails ==
  LET W == [p \in DOMAIN Obs.patterns |-> Windows(Obs.patterns[p])] IN
  F("recorded-rows-kept", Obs.rows = tr) \cup
  F("rows-of-windows", \A p \in DOMAIN Obs.patterns : W[p] # {} /\ InOrder(Obs.patterns[p])) \cup
  F("as-recorded", Obs.kept) \cup
  F("count", Len(Obs.patterns) <= Max2(1, Count)) \cup
  F("most-similar", Listed(W))

Step ==
  \/ pos <= N /\ Take(pos) /\ pos' = pos + 1 /\ UNCHANGED << c, pavars >>
  \/ pos > N /\ StartNest /\ pos' = 1 /\ UNCHANGED << c, pavars >>
  \/ pos > N /\ Finish /\ pos' = 1 /\ UNCHANGED << c, pavars >>
  \/ phase = "done" /\ gat = -1 /\ BeginPatterns(Cases[c].ask) /\ UNCHANGED << c, pos, csvars >>
  \/ gat >= 0 /\ (Gather \/ Slide) /\ UNCHANGED << c, pos, csvars >>

Judge ==
  /\ phase = "done" /\ gat = N /\ Profiled
  /\ PrintT("V " \o ToString(c) \o " " \o ToJson(Fails))
  /\ phase' = "judged"
  /\ UNCHANGED << c, pos, tr, met, seen, open, mate, par, dep, kids, inc, exc, pavars >>

Spec == Init /\ [][Step \/ Judge]_vars
=============================================================================

----------------------------- MODULE CallStack -----------------------------
(* How a recorded sequence of enter, leave and other events becomes calls:  *)
(* pairing, caller/callee nesting, and inclusive and exclusive costs.       *)
(*                                                                          *)
(* A trace is a sequence of rows << location, type, name, time >> in        *)
(* recorded order.  Locations are independent: each has its own cursor, and *)
(* they advance in any order.  The phases are those of the library: pair    *)
(* all locations first, then nest the completed calls and settle their      *)
(* costs as they end.                                                       *)
EXTENDS Val

EnterT == 0
LeaveT == 1
OtherT == 2

VARIABLES
  tr,     \* the recorded rows
  met,    \* recorded numeric columns (the first is the time): col -> row -> Val
  phase,  \* "record", "pair", "nest", "done"
  seen,   \* location -> last row processed in this phase (0: none)
  open,   \* location -> stack of rows of enters that are still open
  mate,   \* row -> partner's row, 0 for none
  par,    \* row -> row of the caller's enter, 0 for none
  dep,    \* row -> depth, -1 for none
  kids,   \* row -> rows of the callees' enters, in order
  inc,    \* col -> row -> inclusive Val
  exc     \* col -> row -> exclusive Val

csvars == << tr, met, phase, seen, open, mate, par, dep, kids, inc, exc >>

N == Len(tr)
Rows == 1..N
LocOf(i)  == tr[i][1]
TypeOf(i) == tr[i][2]
NameOf(i) == tr[i][3]
TimeOf(i) == tr[i][4]
Locs == { LocOf(i) : i \in Rows }
Cols == DOMAIN met

IsEnter(i) == TypeOf(i) = EnterT
IsLeave(i) == TypeOf(i) = LeaveT
IsCallRow(i) == IsEnter(i) \/ IsLeave(i)

(* row i is the next row of its location in this phase *)
Ready(i) == /\ seen[LocOf(i)] < i
            /\ \A j \in (seen[LocOf(i)] + 1)..(i - 1) : LocOf(j) # LocOf(i)

AllSeen == \A i \in Rows : seen[LocOf(i)] >= i

Top(s) == s[Len(s)]
Without(s, x) ==    \* s without its only x
  LET v == x
      k == SetMax({ j \in DOMAIN s : s[j] = v })
  IN SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

----------------------------------------------------------------------------
(* Starting to work on a complete recording *)
Begin(rows, columns) ==
  /\ tr = rows
  /\ met = columns
  /\ phase = "pair"
  /\ seen = [q \in { rows[i][1] : i \in 1..Len(rows) } |-> 0]
  /\ open = [q \in { rows[i][1] : i \in 1..Len(rows) } |-> << >>]
  /\ mate = [i \in 1..Len(rows) |-> 0]
  /\ par  = [i \in 1..Len(rows) |-> 0]
  /\ dep  = [i \in 1..Len(rows) |-> -1]
  /\ kids = [i \in 1..Len(rows) |-> << >>]
  /\ inc  = [c \in DOMAIN columns |-> [i \in 1..Len(rows) |-> Missing]]
  /\ exc  = [c \in DOMAIN columns |-> [i \in 1..Len(rows) |-> Missing]]

See(i) == seen' = [seen EXCEPT ![LocOf(i)] = i]

(* Pairing *)
PairEnter(i) ==
  /\ phase = "pair" /\ IsEnter(i)
  /\ See(i)
  /\ open' = [open EXCEPT ![LocOf(i)] = Append(@, i)]
  /\ UNCHANGED << tr, met, phase, mate, par, dep, kids, inc, exc >>

(* the innermost open enter of the same name, 0 for none *)
Partner(i) ==
  LET s == open[LocOf(i)]
      c == { k \in DOMAIN s : NameOf(s[k]) = NameOf(i) }
  IN IF c = {} THEN 0 ELSE s[SetMax(c)]

PairLeave(i) ==
  /\ phase = "pair" /\ IsLeave(i) /\ Partner(i) # 0
  /\ See(i)
  /\ mate' = [mate EXCEPT ![i] = Partner(i), ![Partner(i)] = i]
  /\ open' = [open EXCEPT ![LocOf(i)] = Without(@, Partner(i))]
  /\ UNCHANGED << tr, met, phase, par, dep, kids, inc, exc >>

PairStray(i) ==     \* a leave nothing was entered for
  /\ phase = "pair" /\ IsLeave(i) /\ Partner(i) = 0
  /\ See(i)
  /\ UNCHANGED << tr, met, phase, open, mate, par, dep, kids, inc, exc >>

SkipOther(i) ==     \* any other event, in both phases
  /\ phase \in {"pair", "nest"} /\ ~IsCallRow(i)
  /\ See(i)
  /\ UNCHANGED << tr, met, phase, open, mate, par, dep, kids, inc, exc >>

StartNest ==
  /\ phase = "pair" /\ AllSeen
  /\ phase' = "nest"
  /\ seen' = [q \in DOMAIN seen |-> 0]
  /\ open' = [q \in DOMAIN open |-> << >>]
  /\ UNCHANGED << tr, met, mate, par, dep, kids, inc, exc >>

(* Nesting and costs *)
NestSkip(i) ==      \* calls that never complete take no part
  /\ phase = "nest" /\ IsCallRow(i) /\ mate[i] = 0
  /\ See(i)
  /\ UNCHANGED << tr, met, phase, open, mate, par, dep, kids, inc, exc >>

NestEnter(i) ==
  LET s == open[LocOf(i)] IN
  /\ phase = "nest" /\ IsEnter(i) /\ mate[i] # 0
  /\ See(i)
  /\ dep' = [dep EXCEPT ![i] = Len(s)]
  /\ par' = [par EXCEPT ![i] = IF s = << >> THEN 0 ELSE Top(s)]
  /\ kids' = IF s = << >> THEN kids ELSE [kids EXCEPT ![Top(s)] = Append(@, i)]
  /\ open' = [open EXCEPT ![LocOf(i)] = Append(@, i)]
  /\ exc' = [c \in Cols |-> [exc[c] EXCEPT ![i] = Num(0)]]
  /\ UNCHANGED << tr, met, phase, mate, inc >>

NestLeave(i) ==     \* the call's cost is settled, and charged to its caller
  LET e == mate[i] IN
  /\ phase = "nest" /\ IsLeave(i) /\ e # 0
  /\ See(i)
  /\ open' = [open EXCEPT ![LocOf(i)] = Without(@, e)]
  /\ inc' = [c \in Cols |-> [inc[c] EXCEPT ![e] = Minus(met[c][i], met[c][e])]]
  /\ exc' = [c \in Cols |->
               LET own == [exc[c] EXCEPT ![e] = Plus(@, Minus(met[c][i], met[c][e]))] IN
               IF par[e] = 0 THEN own
               ELSE [own EXCEPT ![par[e]] = Minus(@, Minus(met[c][i], met[c][e]))]]
  /\ UNCHANGED << tr, met, phase, mate, par, dep, kids >>

Finish ==
  /\ phase = "nest" /\ AllSeen
  /\ phase' = "done"
  /\ UNCHANGED << tr, met, seen, open, mate, par, dep, kids, inc, exc >>

(* one row in whichever phase *)
Take(i) == PairEnter(i) \/ PairLeave(i) \/ PairStray(i) \/ SkipOther(i)
           \/ NestSkip(i) \/ NestEnter(i) \/ NestLeave(i)

Working == phase \in {"pair", "nest"}
DoPairEnter == Working /\ \E i \in Rows : Ready(i) /\ PairEnter(i)
DoPairLeave == Working /\ \E i \in Rows : Ready(i) /\ PairLeave(i)
DoPairStray == Working /\ \E i \in Rows : Ready(i) /\ PairStray(i)
DoSkipOther == Working /\ \E i \in Rows : Ready(i) /\ SkipOther(i)
DoNestSkip  == Working /\ \E i \in Rows : Ready(i) /\ NestSkip(i)
DoNestEnter == Working /\ \E i \in Rows : Ready(i) /\ NestEnter(i)
DoNestLeave == Working /\ \E i \in Rows : Ready(i) /\ NestLeave(i)
DoStartNest == Working /\ StartNest
DoFinish    == Working /\ Finish

Run == \/ DoPairEnter \/ DoPairLeave \/ DoPairStray \/ DoSkipOther
       \/ DoNestSkip \/ DoNestEnter \/ DoNestLeave
       \/ DoStartNest \/ DoFinish

----------------------------------------------------------------------------
(* What it has to come to, said without stacks *)

Paired(e, l) == mate[e] = l /\ mate[l] = e

PairingSound ==
  \A i \in Rows : mate[i] # 0 =>
    /\ mate[mate[i]] = i
    /\ LocOf(i) = LocOf(mate[i]) /\ NameOf(i) = NameOf(mate[i])
    /\ IF IsEnter(i) THEN IsLeave(mate[i]) /\ i < mate[i] ELSE IsLeave(i) /\ IsEnter(mate[i])

(* the enters a leave could have been paired with when it was recorded *)
Candidates(l) ==
  { e \in 1..(l - 1) : /\ IsEnter(e) /\ LocOf(e) = LocOf(l) /\ NameOf(e) = NameOf(l)
                       /\ (mate[e] = 0 \/ mate[e] >= l) }

PairingComplete ==
  phase \in {"nest", "done"} =>
    \A l \in Rows : IsLeave(l) =>
      mate[l] = IF Candidates(l) = {} THEN 0 ELSE SetMax(Candidates(l))

Completed == { e \in Rows : IsEnter(e) /\ mate[e] # 0 }
OpenAt(e) == { f \in Completed : f < e /\ mate[f] > e /\ LocOf(f) = LocOf(e) }

HierarchyRight ==
  phase = "done" =>
    \A i \in Rows :
      IF i \in Completed
      THEN /\ dep[i] = Cardinality(OpenAt(i))
           /\ par[i] = IF OpenAt(i) = {} THEN 0 ELSE SetMax(OpenAt(i))
           /\ Range(kids[i]) = { f \in Completed : par[f] = i }
           /\ \A a, b \in DOMAIN kids[i] : a < b => kids[i][a] < kids[i][b]
      ELSE dep[i] = -1 /\ par[i] = 0 /\ kids[i] = << >>

RECURSIVE Under(_)
Under(e) == {e} \cup UNION { Under(kids[e][k]) : k \in DOMAIN kids[e] }

InclusiveRight ==
  phase = "done" =>
    \A c \in Cols : \A i \in Rows :
      inc[c][i] = IF i \in Completed THEN Minus(met[c][mate[i]], met[c][i]) ELSE Missing

Conserved ==   \* nothing counted twice or lost
  phase = "done" =>
    \A c \in Cols : \A i \in Completed :
      (\A f \in Under(i) : inc[c][f] # Missing) =>
        SumSet([f \in Under(i) |-> exc[c][f][1]], Under(i)) = inc[c][i][1]

ExclusiveRight ==
  phase = "done" =>
    \A c \in Cols : \A i \in Rows :
      IF i \notin Completed THEN exc[c][i] = Missing
      ELSE LET K == Range(kids[i]) IN
           IF inc[c][i] = Missing \/ \E k \in K : inc[c][k] = Missing
           THEN exc[c][i] = Missing
           ELSE exc[c][i] = Num(inc[c][i][1] - SumSet([k \in K |-> inc[c][k][1]], K))

(* calls that overlap without nesting *)
WellNested ==
  \A e, f \in Completed : LocOf(e) = LocOf(f) /\ e < f /\ f < mate[e] => mate[f] < mate[e]

TimeNonNegative ==    \* of the first column, when it does not decrease
  (phase = "done" /\ WellNested /\ \A i, j \in Rows : i < j => TimeOf(i) <= TimeOf(j)) =>
    \A i \in Completed : exc[1][i] = Missing \/ exc[1][i][1] >= 0

(* Location independence: what a location alone would come to *)
Alone(q) == SelectSeq([i \in Rows |-> i], LAMBDA i : LocOf(i) = q)   \* its rows, in order
PosIn(q, i) == CHOOSE k \in DOMAIN Alone(q) : Alone(q)[k] = i

AlonePairs(q) ==    \* pairing of location q by itself, by folding over its rows only
  LET own == Alone(q)
      RECURSIVE Fold(_, _, _)
      Fold(k, stack, m) ==
        IF k > Len(own) THEN m
        ELSE LET i == own[k] IN
          IF IsEnter(i) THEN Fold(k + 1, Append(stack, i), m)
          ELSE IF IsLeave(i)
          THEN LET c == { x \in DOMAIN stack : NameOf(stack[x]) = NameOf(i) } IN
               IF c = {} THEN Fold(k + 1, stack, m)
               ELSE LET e == stack[SetMax(c)] IN
                    Fold(k + 1, Without(stack, e), m \cup {<< e, i >>})
          ELSE Fold(k + 1, stack, m)
  IN Fold(1, << >>, {})

LocationIndependent ==
  phase = "done" =>
    \A q \in Locs : { << e, mate[e] >> : e \in { x \in Completed : LocOf(x) = q } } = AlonePairs(q)
=============================================================================

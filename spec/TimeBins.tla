------------------------------ MODULE TimeBins ------------------------------
(* The time profile: every location has a clock that runs from event to     *)
(* event, and from edge to edge of the intervals; the time it runs is given *)
(* to the innermost completed call that is open then, if there is one.      *)
(* Times are scaled by the number of intervals nb, so that all edges are    *)
(* whole numbers.                                                           *)
EXTENDS CallStack, TLC

VARIABLES
  nb,     \* number of intervals
  clock,  \* location -> scaled time since the first event of the trace
  swept,  \* location -> last row its clock has passed
  stk,    \* location -> stack of open completed calls
  amt     \* << interval, name >> -> scaled time

tbvars == << nb, clock, swept, stk, amt >>

FirstT == SetMin({ TimeOf(i) : i \in Rows })
LastT  == SetMax({ TimeOf(i) : i \in Rows })
Span   == LastT - FirstT              \* = the scaled length of an interval
S(i)   == nb * (TimeOf(i) - FirstT)

BeginBins(n) ==
  /\ nb' = n
  /\ clock' = [q \in Locs |-> 0]
  /\ swept' = [q \in Locs |-> 0]
  /\ stk' = [q \in Locs |-> << >>]
  /\ amt' = << >>

(* the next row of location q, 0 for none *)
NextOf(q) == LET c == { i \in (swept[q] + 1)..N : LocOf(i) = q } IN IF c = {} THEN 0 ELSE SetMin(c)

(* the clock runs up to the next event of its location or the next edge *)
RunClock(q, i) ==
  LET edge == (clock[q] \div Span + 1) * Span
      to == Min2(S(i), edge)
      k == << clock[q] \div Span + 1, NameOf(Top(stk[q])) >>
  IN
  /\ phase = "done" /\ LocOf(i) = q /\ S(i) > clock[q]
  /\ clock' = [clock EXCEPT ![q] = to]
  /\ amt' = IF stk[q] = << >> THEN amt
            ELSE IF k \in DOMAIN amt THEN [amt EXCEPT ![k] = @ + to - clock[q]]
            ELSE (k :> (to - clock[q])) @@ amt
  /\ UNCHANGED << nb, swept, stk >>

(* an event is passed when the clock has got to it *)
PassEvent(q, i) ==
  /\ phase = "done" /\ LocOf(i) = q /\ S(i) = clock[q]
  /\ swept' = [swept EXCEPT ![q] = i]
  /\ stk' = [stk EXCEPT ![q] = IF mate[i] = 0 THEN @ ELSE IF IsEnter(i) THEN Append(@, i) ELSE Without(@, mate[i])]
  /\ UNCHANGED << nb, clock, amt >>

Swept == phase = "done" /\ \A q \in Locs : NextOf(q) = 0

Amount(b, f) == IF << b, f >> \in DOMAIN amt THEN amt[<< b, f >>] ELSE 0
Functions == { NameOf(i) : i \in { j \in Rows : IsEnter(j) } }
BinTotal(b) == SumSet([f \in Functions |-> Amount(b, f)], Functions)
Capacity(procs) == Span * procs
Idle(b, procs) == Capacity(procs) - BinTotal(b)

(* what is shown of an amount x, 1/nb of a unit of un/ud each: nothing if it is below 0.01 *)
Shown(x, un, ud) == IF x * un * 100 < nb * ud THEN 0 ELSE x

----------------------------------------------------------------------------
(* Said without clocks *)
Overlap(e, b) == LET from == Max2(S(e), (b - 1) * Span)
                     to == Min2(S(mate[e]), b * Span) IN Max2(0, to - from)
Own(e, b) == Overlap(e, b) - SumSet([k \in Range(kids[e]) |-> Overlap(k, b)], Range(kids[e]))
CallsOf(f) == { e \in Completed : NameOf(e) = f }

AmountsRight == Swept /\ WellNested =>
  \A b \in 1..nb, f \in Functions : Amount(b, f) = SumSet([e \in CallsOf(f) |-> Own(e, b)], CallsOf(f))

(* nothing twice: a location is in one function at a time *)
AtMostOnce == Swept => \A b \in 1..nb : BinTotal(b) >= 0 /\ BinTotal(b) <= Span * Cardinality(Locs)

(* nothing lost: over all intervals, a function has its exclusive time *)
AddsUp == Swept /\ WellNested =>
  \A f \in Functions :
    SumSet([b \in 1..nb |-> Amount(b, f)], 1..nb) = nb * SumSet([e \in CallsOf(f) |-> exc[1][e][1]], CallsOf(f))
=============================================================================

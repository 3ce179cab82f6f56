---------------------------- MODULE MC_Patterns ----------------------------
(* Loops of calls with all small costs, with a process on the side, and all *)
(* ways to ask.                                                             *)
EXTENDS Patterns, TLC, Json
CONSTANTS Calls, MaxCost, Every, Widths, Counts

(* a loop (name 1) with calls (name 2) of the costs given; every so many calls, the loop is left and entered again *)
Loop(costs) ==
  LET RECURSIVE Go(_, _, _)
      Go(k, t, rows) ==
        IF k > Len(costs) THEN Append(rows, << 1, LeaveT, 1, t >>)
        ELSE IF k > 1 /\ (k - 1) % Every = 0 /\ rows[Len(rows)][2] # EnterT
        THEN Go(k, t + 1, rows \o << << 1, LeaveT, 1, t >>, << 2, EnterT, 2, t >>, << 2, LeaveT, 2, t + 1 >>, << 1, EnterT, 1, t + 1 >> >>)
        ELSE Go(k + 1, t + costs[k] + 1, rows \o << << 1, EnterT, 2, t >>, << 1, LeaveT, 2, t + costs[k] >> >>)
  IN Go(1, 1, << << 1, EnterT, 2, 0 >>, << 1, LeaveT, 2, 0 >>, << 1, EnterT, 1, 0 >> >>)

Asked == [start : {1}, process : {0}, proc : {<< 0, 1 >>}, col : {1}, exclusive : {TRUE}, window : Widths, count : Counts]

Init ==
  /\ \E costs \in [1..Calls -> 0..MaxCost] : LET R == Loop(costs) IN Begin(R, << [i \in DOMAIN R |-> Num(R[i][4])] >>)
  /\ ask = [start |-> 0] /\ gat = -1 /\ series = << >> /\ stat = << >> /\ prof = << >> /\ list = << >>

Ask == phase = "done" /\ gat = -1 /\ (\E a \in Asked : BeginPatterns(a)) /\ UNCHANGED csvars
First(i) == Ready(i) /\ \A j \in 1..(i - 1) : seen[LocOf(j)] >= j      \* locations one by one is C03's business
Pair == Working /\ (\E i \in Rows : First(i) /\ Take(i)) /\ UNCHANGED pavars
Turn == Working /\ (StartNest \/ Finish) /\ UNCHANGED pavars
DoGather == gat >= 0 /\ Gather /\ UNCHANGED csvars
DoSlide == gat >= 0 /\ Slide /\ UNCHANGED csvars
DoFirst == gat >= 0 /\ PickFirst /\ UNCHANGED csvars
DoNext == gat >= 0 /\ PickNext /\ UNCHANGED csvars
Next == Pair \/ Turn \/ Ask \/ DoGather \/ DoSlide \/ DoFirst \/ DoNext
Spec == Init /\ [][Next]_<< csvars, pavars >>

Asking == gat >= 0
InvSeries == Asking => SeriesRight
InvSimilar == Asking => MostSimilar /\ PeriodicFound
InvApart == Asking /\ Profiled => ApartAndInOrder

(* for replay *)
GenInit == Init
GenNext ==
  /\ gat = -1
  /\ \E a \in Asked : PrintT("G " \o ToJson(<< tr, a >>))
  /\ gat' = 0 /\ UNCHANGED << csvars, ask, series, stat, prof, list >>
GenSpec == GenInit /\ [][GenNext]_<< csvars, pavars >>
=============================================================================

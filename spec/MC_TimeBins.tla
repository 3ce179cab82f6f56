---------------------------- MODULE MC_TimeBins ----------------------------
EXTENDS MC_CallStack, TimeBins
CONSTANTS Bins, MaxTime

Stamped ==  \* times are chosen when the recording is closed
  /\ Close
  /\ UNCHANGED tbvars
BinInit == Init /\ nb = 0 /\ clock = << >> /\ swept = << >> /\ stk = << >> /\ amt = << >>

(* rows are recorded with any time that does not go back *)
RecordTimed ==
  /\ phase = "record" /\ N < MaxRows
  /\ \E q \in 1..NLoc, tn \in TypesNames, t \in 0..MaxTime :
       /\ \A p \in 1..(q - 1) : \E i \in Rows : LocOf(i) = p
       /\ \A m \in 1..(tn[2] - 1) : \E i \in Rows : NameOf(i) = m
       /\ IF N = 0 THEN t = 0 ELSE t >= TimeOf(N)
       /\ tr' = Append(tr, << q, tn[1], tn[2], t >>)
       /\ met' = << Append(met[1], Num(t)), Append(met[2], Missing) >>
  /\ UNCHANGED << phase, seen, open, mate, par, dep, kids, inc, exc >>
  /\ UNCHANGED tbvars
Working1 == Run /\ UNCHANGED tbvars
DoBegin == phase = "done" /\ nb = 0 /\ Span > 0 /\ (\E n \in Bins : BeginBins(n)) /\ UNCHANGED csvars
DoRunClock == phase = "done" /\ nb > 0 /\ (\E q \in Locs : NextOf(q) # 0 /\ RunClock(q, NextOf(q))) /\ UNCHANGED csvars
DoPassEvent == phase = "done" /\ nb > 0 /\ (\E q \in Locs : NextOf(q) # 0 /\ PassEvent(q, NextOf(q))) /\ UNCHANGED csvars

BinNext == RecordTimed \/ Stamped \/ Working1 \/ DoBegin \/ DoRunClock \/ DoPassEvent
BinSpec == BinInit /\ [][BinNext]_<< csvars, tbvars >>
InvBins == phase = "done" /\ nb > 0 => AmountsRight /\ AtMostOnce /\ AddsUp

(* recordings with times, for replay *)
GenTimed == RecordTimed
            \/ (/\ phase = "record" /\ N = MaxRows
                /\ PrintT("G " \o ToJson(tr))
                /\ phase' = "printed"
                /\ UNCHANGED << tr, met, seen, open, mate, par, dep, kids, inc, exc, tbvars >>)
GenSpecT == BinInit /\ [][GenTimed]_<< csvars, tbvars >>
=============================================================================

------------------------------ MODULE MC_Nsight ------------------------------
EXTENDS Nsight, TLC, Json
CONSTANTS MaxRanges, MaxTime, Threads

Shapes == { r \in (1..Threads) \X {1} \X (0..MaxTime) \X (0..MaxTime) : r[3] <= r[4] }
Init == (\E n \in 1..MaxRanges : \E rs \in [1..n -> Shapes] : Begin(rs)) /\ Laminar
DoEnter == \E r \in Ids : EnterRange(r)
DoLeave == \E r \in Ids : LeaveRange(r)
Next == DoEnter \/ DoLeave
Spec == Init /\ [][Next]_nsvars /\ WF_nsvars(Next)
Completes == <>Complete

GenNext == entered = {} /\ PrintT("G " \o ToJson(ranges)) /\ entered' = {0} /\ UNCHANGED << ranges, left, open, parent, now, rows >>
GenSpec == Init /\ [][GenNext]_nsvars
=============================================================================

--------------------------- MODULE MC_ParallelRead ---------------------------
EXTENDS ParallelRead, TLC, Json
CONSTANTS MaxLocs, MaxRows, MaxTime

Rising(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Datas == UNION { { s \in [1..n -> 0..MaxTime] : Rising(s) } : n \in 0..MaxRows }
Init == \E n \in 1..MaxLocs : \E d \in [1..n -> Datas] : \E k \in 1..n : Begin(d, k)
DoFinish == \E w \in 1..workers : Finish(w)
DoCollect == Collect
Next == DoFinish \/ DoCollect
Spec == Init /\ [][Next]_parvars

(* schedules: numbers of locations and workers, and all orders in which the workers finish *)
GenInit == \E n \in 1..MaxLocs : \E k \in 1..n : Begin([l \in 1..n |-> << >>], k)
GenStop == Len(order) = workers /\ table = << >> /\ PrintT("G " \o ToJson(<< N, order >>)) /\ table' = << << >> >> /\ UNCHANGED << data, workers, brought, order >>
GenSpec == GenInit /\ [][DoFinish \/ GenStop]_parvars
=============================================================================

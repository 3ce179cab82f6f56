---------------------------- MODULE MC_Otf2Reader ----------------------------
EXTENDS Otf2Reader, TLC, Json
CONSTANTS MaxLocs, MaxRecs, MaxTime, MaxMetric,
  Shuffled    \* whether locations are numbered in other orders than they are listed

Shapes == { << t, k, w, 1, << >> >> : t \in 0..MaxTime, k \in {0, 2}, w \in {1} }
     \cup { << t, 3, 0, 0, << << m, m >> >> >> : t \in 0..MaxTime, m \in 1..MaxMetric }
Ordered(s) == \A i \in 1..(Len(s) - 1) : s[i][1] <= s[i + 1][1]
RecSeqs == UNION { { s \in [1..n -> Shapes] : Ordered(s) } : n \in 0..MaxRecs }
Locations == { [proc |-> p, cpu |-> c, recs |-> s] : p \in {1, 2}, c \in BOOLEAN, s \in RecSeqs }
(* numbers without gaps, in order or not; the first may be spared *)
Numberings(n) == IF ~Shuffled THEN { [i \in 1..n |-> i] } ELSE { f \in [1..n -> 0..n] : (\A i, j \in 1..n : i # j => f[i] # f[j]) /\ \E i \in 1..n : f[i] = 1 }
Listed == { x \in Locations : ~x.cpu => Len(x.recs) = 1 }
Init == \E n \in 1..MaxLocs : \E f \in Numberings(n), g \in [1..n -> Listed] :
          Begin([i \in 1..n |-> [num |-> f[i], proc |-> g[i].proc, cpu |-> g[i].cpu, recs |-> g[i].recs]])
DoTakeReading == \E l \in Locs : TakeReading(l)
DoTakeEvent == \E l \in Locs : TakeEvent(l)
DoSkip == \E l \in Locs : Skip(l)
Next == DoTakeReading \/ DoTakeEvent \/ DoSkip
Spec == Init /\ [][Next]_otfvars

(* All ways of reading come to the same rows for each location. *)
Fresh == pos = [l \in Locs |-> 0]
GenNext == Fresh /\ table = << >> /\ PrintT("G " \o ToJson(arch)) /\ table' = << 0 >> /\ UNCHANGED << arch, pos, pend >>
GenSpec == Init /\ [][GenNext]_otfvars
=============================================================================

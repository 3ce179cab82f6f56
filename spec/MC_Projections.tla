--------------------------- MODULE MC_Projections ---------------------------
EXTENDS Projections, TLC, Json
CONSTANTS MaxPes, MaxRecs, MaxTime, Kinds

Shapes == { << k, t, 1, 1, t + 1 >> : k \in Kinds, t \in 0..MaxTime }
LogsOf == UNION { [1..n -> Shapes] : n \in 0..MaxRecs }
Init == \E n \in 1..MaxPes : \E l \in [1..n -> LogsOf] : Begin(l)
DoRead == \E p \in Pes : ReadRecord(p)
DoClose == \E p \in Pes : CloseLog(p)
Next == DoRead \/ DoClose
Spec == Init /\ [][Next]_prjvars

GenNext == done = {} /\ PrintT("G " \o ToJson(logs)) /\ done' = {0} /\ UNCHANGED << logs, pos, open, table >>
GenSpec == Init /\ [][GenNext]_prjvars
=============================================================================

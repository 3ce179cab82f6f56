---------------------------- MODULE MC_CsvReader ----------------------------
EXTENDS CsvReader, TLC, Json
CONSTANTS MaxLines, MaxTime
Init == \E n \in 0..MaxLines : \E f \in [1..n -> 0..MaxTime] : Begin(f)
DoRead == Read
Next == DoRead
Spec == Init /\ [][Next]_csvvars
GenNext == pos = 0 /\ file # << >> /\ PrintT("G " \o ToJson(file)) /\ pos' = -1 /\ UNCHANGED << file, table >>
GenSpec == Init /\ [][GenNext]_csvvars
=============================================================================

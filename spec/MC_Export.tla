------------------------------ MODULE MC_Export ------------------------------
EXTENDS Export, TLC, Json
CONSTANTS MaxRows, Times, Types, Past  \* times are counted from -Past

Shapes == { << t, n, x - Past, p, NoThread, 0 >> : t \in Types, n \in {1, 2}, x \in Times, p \in {0, 1} }
Init == \E n \in 0..MaxRows : \E rows \in [1..n -> Shapes] : Begin(rows, 3)
DoWrite == Write
DoClose == Close
Next == DoWrite \/ DoClose
Spec == Init /\ [][Next]_exvars

GenNext == pos = 0 /\ PrintT("G " \o ToJson(tr)) /\ pos' = -1 /\ UNCHANGED << tr, per, doc, closed >>
GenSpec == Init /\ [][GenNext]_exvars
=============================================================================

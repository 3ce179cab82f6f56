------------------------------- MODULE MC_Comm -------------------------------
EXTENDS Comm, Json
CONSTANTS MaxRows, NProc, Sizes, MaxStep, Ask

Procs == 0..(NProc - 1)
Now == IF N = 0 THEN {0} ELSE { TimeOf(N) + d : d \in 0..MaxStep }
Questions ==
  IF Ask = "none" THEN << >> ELSE
  << [what |-> "send", by |-> "count", nb |-> 2, edges |-> << >>], [what |-> "send", by |-> "size", nb |-> 3, edges |-> << >>],
     [what |-> "recv", by |-> "size", nb |-> 2, edges |-> << >>], [what |-> "sizes", by |-> "count", nb |-> 3, edges |-> << >>],
     [what |-> "sizes", by |-> "count", nb |-> 0, edges |-> << 1, 2, 5 >>] >>

Init == /\ tr = << >> /\ flying = << >> /\ phase = "record" /\ pos = 0 /\ cnt = << >> /\ siz = << >> /\ asks = << >> /\ hist = << >>
Room == phase = "record" /\ N < MaxRows
DoSend    == Room /\ \E p, r \in Procs, s \in Sizes, k \in SendK, t \in Now : Send(p, r, s, k, t)
DoReceive == Room /\ \E m \in DOMAIN flying, k \in RecvK, t \in Now : Receive(m, k, t)
DoElse    == Room /\ \E p \in Procs, t \in Now : Else(p, t)
DoStart   == N = MaxRows /\ StartCount(Questions)
DoCount   == phase = "count" /\ Count(pos + 1)
Next == DoSend \/ DoReceive \/ DoElse \/ DoStart \/ DoCount
Spec == Init /\ [][Next]_cmvars

GenNext == DoSend \/ DoReceive \/ DoElse
           \/ (phase = "record" /\ N = MaxRows /\ PrintT("G " \o ToJson(tr)) /\ phase' = "printed"
               /\ UNCHANGED << tr, flying, pos, cnt, siz, asks, hist >>)
GenSpec == Init /\ [][GenNext]_cmvars
=============================================================================

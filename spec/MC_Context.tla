----------------------------- MODULE MC_Context -----------------------------
EXTENDS Context, TLC, Json

CONSTANTS MaxRows, NLoc, NName, WithOther

TypesNames == { << t, n >> : t \in {EnterT, LeaveT}, n \in 1..NName } \cup (IF WithOther THEN { << 2, 1 >> } ELSE {})

Init == /\ tr = << >> /\ phase = "record" /\ seen = << >> /\ open = << >> /\ nodes = << >> /\ node = << >>

Record ==
  /\ phase = "record" /\ N < MaxRows
  /\ \E q \in 1..NLoc, tn \in TypesNames :
       /\ \A p \in 1..(q - 1) : \E i \in Rows : LocOf(i) = p
       /\ \A m \in 1..(tn[2] - 1) : \E i \in Rows : NameOf(i) = m
       /\ tr' = Append(tr, << q, tn[1], tn[2], N >>)
  /\ UNCHANGED << phase, seen, open, nodes, node >>

Close ==
  /\ phase = "record" /\ N = MaxRows
  /\ phase' = "walk"
  /\ seen' = [q \in Locs |-> 0] /\ open' = [q \in Locs |-> << >>]
  /\ node' = [i \in Rows |-> 0]
  /\ UNCHANGED << tr, nodes >>

Next == Record \/ Close \/ Walk
Spec == Init /\ [][Next]_ctvars
=============================================================================

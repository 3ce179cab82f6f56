---------------------------- MODULE MC_Session ----------------------------
EXTENDS Session, TLC, Json
CONSTANTS MaxOps

Init == table = << >> /\ op = "" /\ result = << >> /\ listed = << >> /\ past = << >>
DoCall == Len(past) < MaxOps /\ \E o \in Ops : Call(o)
DoAdd == \E x \in Derived : AddColumn(x)
DoReturn == Return
DoSpoil == Spoil
Next == DoCall \/ DoAdd \/ DoReturn \/ DoSpoil
Spec == Init /\ [][Next]_sevars /\ WF_sevars(DoAdd) /\ WF_sevars(DoReturn)
Returns == []<>(op = "")

GenNext == \/ (Len(past) < MaxOps /\ \E o \in Ops : past' = Append(past, o)) /\ UNCHANGED << table, op, result, listed >>
           \/ Len(past) = MaxOps /\ op = "" /\ PrintT("G " \o ToJson(past)) /\ op' = "end" /\ UNCHANGED << table, result, listed, past >>
GenSpec == Init /\ [][GenNext]_sevars
=============================================================================

---------------------------- MODULE MC_CallStack ----------------------------
(* Exhaustive exploration of CallStack over all recordings of MaxRows rows. *)
EXTENDS CallStack, TLC, Json

CONSTANTS MaxRows, NLoc, NName, WithOther, Readings

(* a second column with readings that can be missing and can go down *)
Reading == IF Readings = 0 THEN {Missing} ELSE {Missing, Num(0), Num(1)}

TypesNames == { << t, n >> : t \in {EnterT, LeaveT}, n \in 1..NName }
              \cup (IF WithOther THEN { << OtherT, 1 >> } ELSE {})

Init ==
  /\ tr = << >> /\ met = << << >>, << >> >>
  /\ phase = "record"
  /\ seen = << >> /\ open = << >> /\ mate = << >> /\ par = << >> /\ dep = << >>
  /\ kids = << >> /\ inc = << >> /\ exc = << >>

(* Recordings are taken up to renaming: locations and names first occur in order *)
Record ==
  /\ phase = "record" /\ N < MaxRows
  /\ \E q \in 1..NLoc, tn \in TypesNames, v \in Reading :
       /\ \A p \in 1..(q - 1) : \E i \in Rows : LocOf(i) = p
       /\ \A m \in 1..(tn[2] - 1) : \E i \in Rows : NameOf(i) = m
       /\ tr' = Append(tr, << q, tn[1], tn[2], N >>)
       /\ met' = << Append(met[1], Num(N)), Append(met[2], v) >>
  /\ UNCHANGED << phase, seen, open, mate, par, dep, kids, inc, exc >>

Close ==
  /\ phase = "record" /\ N = MaxRows
  /\ phase' = "pair"
  /\ seen' = [q \in Locs |-> 0] /\ open' = [q \in Locs |-> << >>]
  /\ mate' = [i \in Rows |-> 0] /\ par' = [i \in Rows |-> 0] /\ dep' = [i \in Rows |-> -1]
  /\ kids' = [i \in Rows |-> << >>]
  /\ inc' = [c \in Cols |-> [i \in Rows |-> Missing]]
  /\ exc' = [c \in Cols |-> [i \in Rows |-> Missing]]
  /\ UNCHANGED << tr, met >>

Next == Record \/ Close \/ Run
Spec == Init /\ [][Next]_csvars

Live == phase # "record"
InvPairing == Live => PairingSound /\ PairingComplete
InvHierarchy == Live => HierarchyRight
InvInclusive == Live => InclusiveRight
InvExclusive == Live => ExclusiveRight /\ Conserved /\ TimeNonNegative
InvLocation == Live => LocationIndependent

----------------------------------------------------------------------------
(* Behaviours for replay: every recording once, printed as JSON *)
GenNext == Record
           \/ (/\ phase = "record" /\ N = MaxRows
               /\ PrintT("G " \o ToJson(tr))
               /\ phase' = "done"
               /\ UNCHANGED << tr, met, seen, open, mate, par, dep, kids, inc, exc >>)
GenSpec == Init /\ [][GenNext]_csvars
=============================================================================

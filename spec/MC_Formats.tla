----------------------------- MODULE MC_Formats -----------------------------
(* All small recordings, all their merges, all orders of work.              *)
EXTENDS Formats, Json

CONSTANTS MaxRows, NLoc, NName, MaxTime, WithOther

Kinds == { << t, n >> : t \in {EnterT, LeaveT}, n \in 1..NName } \cup (IF WithOther THEN { << OtherT, 1 >> } ELSE {})

Init ==
  /\ BeginReading([q \in 1..NLoc |-> << >>], 0)
  /\ grp = << >> /\ proc = << >> /\ what = << >> /\ fed = {} /\ acc = << >> /\ tabs = << >>

(* the streams grow while nothing has been read; locations in order, as they are independent *)
Record(q, k, t) ==
  /\ tr = << >> /\ phase = "merge" /\ Total < MaxRows
  /\ \A p \in (q + 1)..NLoc : streams[p] = << >>
  /\ IF streams[q] = << >> THEN TRUE ELSE streams[q][Len(streams[q])][3] <= t
  /\ streams' = [streams EXCEPT ![q] = Append(@, << k[1], k[2], t, << >> >>)]
  /\ UNCHANGED << at, csvars, pfvars >>
DoRecord == \E q \in 1..NLoc, k \in Kinds, t \in 0..MaxTime : Record(q, k, t)
DoRead == Total = MaxRows /\ \E q \in Turn : Read(q) /\ UNCHANGED pfvars
DoStartWork ==
  /\ Total = MaxRows /\ StartWork
  /\ proc' \in { [q \in 1..NLoc |-> q], [q \in 1..NLoc |-> 1] }
  /\ grp' = [i \in Rows |-> NameOf(i)]
  /\ what' = << << "inc", 1 >> >> /\ fed' = {} /\ acc' = << << >> >> /\ tabs' = << >>
DoWork == Run /\ UNCHANGED << fmvars, pfvars >>
DoFeed == phase = "done" /\ \E i \in Rows : Feed(i) /\ UNCHANGED << fmvars, csvars >>

Next == DoRecord \/ DoRead \/ DoStartWork \/ DoWork \/ DoFeed
Spec == Init /\ [][Next]_<< fmvars, csvars, pfvars >>

(* every merge can be brought to an end *)
NeverStuck == phase = "merge" => Waiting = {} \/ Turn # {}

GenNext == DoRecord \/ (/\ Total = MaxRows /\ phase = "merge"
                        /\ PrintT("G " \o ToJson(streams)) /\ phase' = "done"
                        /\ UNCHANGED << fmvars, pfvars, tr, met, seen, open, mate, par, dep, kids, inc, exc >>)
GenSpec == Init /\ [][GenNext]_<< fmvars, csvars, pfvars >>
=============================================================================

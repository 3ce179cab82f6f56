----------------------------- MODULE MC_Profile -----------------------------
(* Profiles of all small recordings, with locations as processes or as      *)
(* threads of one, groups being functions or calls at depth 0 and others.   *)
EXTENDS MC_CallStack, Profile

NoProfile == grp = << >> /\ proc = << >> /\ what = << >> /\ fed = {} /\ acc = << >> /\ tabs = << >>
ProfInit == Init /\ NoProfile

Recording == Record /\ UNCHANGED pfvars
Working1 == Run /\ UNCHANGED pfvars
Closing ==
  /\ Close
  /\ \E same \in BOOLEAN : proc' = [q \in Locs |-> IF same THEN 1 ELSE q]
  /\ \E byname \in BOOLEAN : grp' = [i \in Rows |-> IF byname THEN NameOf(i) ELSE i % 2]
  /\ what' = << << "inc", 1 >>, << "exc", 1 >>, << "raw", 1 >> >>
  /\ fed' = {} /\ acc' = [m \in 1..3 |-> << >>] /\ tabs' = << >>
DoFeed == phase = "done" /\ \E i \in Rows : Feed(i) /\ UNCHANGED csvars
DoCloseRun == phase = "done" /\ tabs = << >> /\ CloseRun /\ UNCHANGED csvars

ProfNext == Recording \/ Closing \/ Working1 \/ DoFeed \/ DoCloseRun
ProfSpec == ProfInit /\ [][ProfNext]_<< csvars, pfvars >>

InvProfile == Live /\ phase = "done" => SumsRight /\ NothingLost /\ ExclusiveAddsUp /\ MeanBetween /\ IdleAddsUp
InvTable == tabs # << >> => \A g \in AllGroups(1) : Entry(1, 1, g) = MeanOf(acc[1], g) /\ ColumnSum(1, g) = Entry(1, 1, g)
=============================================================================

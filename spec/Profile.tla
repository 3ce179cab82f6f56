------------------------------ MODULE Profile ------------------------------
(* Profiles of a trace: the costs of its calls added up per group (function *)
(* or other) and process, and what is derived from these sums: means over   *)
(* the processes, imbalance, idle time, and the table of several runs.      *)
EXTENDS CallStack, TLC

VARIABLES
  grp,    \* row -> group
  proc,   \* location -> process
  what,   \* the metrics: sequence of << "inc" | "exc" | "raw", column >>
  fed,    \* rows that have been added up
  acc,    \* metric -> << group, process >> -> sum
  tabs    \* the finished profiles of the runs so far

pfvars == << grp, proc, what, fed, acc, tabs >>

Procs == { proc[q] : q \in Locs }
ProcOf(i) == proc[LocOf(i)]

ValueOf(m, i) == LET col == what[m][2] IN
  IF what[m][1] = "inc" THEN inc[col][i] ELSE IF what[m][1] = "exc" THEN exc[col][i] ELSE met[col][i]

BeginProfile(g, p, w) ==
  /\ grp = g /\ proc = p /\ what = w
  /\ fed = {} /\ acc = [m \in 1..Len(w) |-> << >>]

(* the enter of a call is counted in its group at its process *)
Feed(i) ==
  /\ phase = "done" /\ i \in Rows \ fed /\ IsEnter(i)
  /\ fed' = fed \cup {i}
  /\ LET k == << grp[i], ProcOf(i) >> IN
     acc' = [m \in DOMAIN what |->
               IF k \in DOMAIN acc[m] THEN [acc[m] EXCEPT ![k] = @ + OrZero(ValueOf(m, i))]
               ELSE (k :> OrZero(ValueOf(m, i))) @@ acc[m]]
  /\ UNCHANGED << grp, proc, what, tabs >>

Fed == phase = "done" /\ \A i \in Rows : IsEnter(i) => i \in fed

Keys(m) == DOMAIN acc[m]
GroupsOf(t) == { k[1] : k \in DOMAIN t }
ProcsOf(t, g) == { k[2] : k \in { x \in DOMAIN t : x[1] = g } }
TotalOf(t, g) == SumSet([p \in ProcsOf(t, g) |-> t[<< g, p >>]], ProcsOf(t, g))

(* mean over the processes that entered the group; 0/1 of a unit is << 0 >> *)
MeanOf(t, g) == Ratio(TotalOf(t, g), Cardinality(ProcsOf(t, g)))

(* the largest sum over the mean, where there is a mean other than zero *)
MaxOf(t, g) == SetMax({ t[<< g, p >>] : p \in ProcsOf(t, g) })
SignedRatio(n, d) == IF d > 0 THEN Ratio(n, d) ELSE Ratio(-n, -d)
ImbalanceOf(t, g) == SignedRatio(MaxOf(t, g) * Cardinality(ProcsOf(t, g)), TotalOf(t, g))

(* s is a right list of the k heaviest processes *)
Heaviest(t, g, k, s) ==
  LET P == ProcsOf(t, g) IN
  /\ Len(s) = Min2(k, Cardinality(P))
  /\ Range(s) \subseteq P /\ Cardinality(Range(s)) = Len(s)
  /\ \A i \in 1..(Len(s) - 1) : t[<< g, s[i] >>] >= t[<< g, s[i + 1] >>]
  /\ Len(s) > 0 => \A p \in P \ Range(s) : t[<< g, p >>] <= t[<< g, s[Len(s)] >>]

(* time spent in calls of the groups G at process p *)
IdleOf(t, G, p) == LET K == { k \in DOMAIN t : k[2] = p /\ k[1] \in G } IN SumSet([k \in K |-> t[k]], K)

CloseRun ==
  /\ Fed
  /\ tabs' = Append(tabs, [sums |-> acc, procs |-> Cardinality(Procs)])
  /\ UNCHANGED << grp, proc, what, fed, acc >>

(* several runs: entry of run r and group g, missing where the run did not enter it *)
Entry(m, r, g) == IF g \in GroupsOf(tabs[r].sums[m]) THEN MeanOf(tabs[r].sums[m], g) ELSE Missing
AllGroups(m) == UNION { GroupsOf(tabs[r].sums[m]) : r \in DOMAIN tabs }

RatPlus(v, w) == IF v = Missing THEN w ELSE IF w = Missing THEN v
                 ELSE Ratio(NumOf(v) * DenOf(w) + NumOf(w) * DenOf(v), DenOf(v) * DenOf(w))
ColumnSum(m, g) ==
  LET RECURSIVE Go(_, _)
      Go(r, s) == IF r > Len(tabs) THEN s ELSE Go(r + 1, RatPlus(s, Entry(m, r, g)))
  IN Go(1, Num(0))

----------------------------------------------------------------------------
(* What it has to come to *)
Counted(m, g, p) == { i \in fed : grp[i] = g /\ ProcOf(i) = p }

SumsRight ==
  \A m \in DOMAIN what :
    /\ Keys(m) = { << grp[i], ProcOf(i) >> : i \in fed }
    /\ \A k \in Keys(m) :
         acc[m][k] = SumSet([i \in Counted(m, k[1], k[2]) |-> OrZero(ValueOf(m, i))], Counted(m, k[1], k[2]))

NothingLost ==
  \A m \in DOMAIN what :
    SumSet(acc[m], Keys(m)) = SumSet([i \in fed |-> OrZero(ValueOf(m, i))], fed)

(* all time at a process is in some function, once: exclusive sums add up to what the outermost calls took *)
RootsOnly == { i \in Completed : par[i] = 0 }
ExclusiveAddsUp ==
  Fed => \A m \in DOMAIN what :
    what[m] = << "exc", 1 >> =>
      \A p \in Procs :
        SumSet([k \in { x \in Keys(m) : x[2] = p } |-> acc[m][k]], { x \in Keys(m) : x[2] = p })
          = SumSet([i \in { x \in RootsOnly : ProcOf(x) = p } |-> inc[1][i][1]], { x \in RootsOnly : ProcOf(x) = p })

MeanBetween ==
  Fed => \A m \in DOMAIN what : \A g \in GroupsOf(acc[m]) :
    /\ RatLE(MeanOf(acc[m], g), Num(MaxOf(acc[m], g)))
    /\ TotalOf(acc[m], g) > 0 => RatLE(Num(1), ImbalanceOf(acc[m], g))

IdleAddsUp ==     \* idle time of all groups is all the inclusive time of the process
  Fed => \A m \in DOMAIN what : what[m] = << "inc", 1 >> =>
    \A p \in Procs :
      IdleOf(acc[m], GroupsOf(acc[m]), p)
        = SumSet([i \in { x \in Completed : ProcOf(x) = p } |-> inc[1][i][1]], { x \in Completed : ProcOf(x) = p })
=============================================================================

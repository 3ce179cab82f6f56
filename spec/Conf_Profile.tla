---------------------------- MODULE Conf_Profile ----------------------------
(* Conformance of profiles: every run of a case is paired, nested and added *)
(* up by the specification, then what the library returned is judged.       *)
EXTENDS Profile, Json, IOUtils

CONSTANT Prop

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, run, pos
vars == << c, run, pos, csvars, pfvars >>
Obs == Cases[c].obs
Runs == Cases[c].runs

Init ==
  /\ c \in 1..Len(Cases) /\ run = 1 /\ pos = 1
  /\ Begin(Runs[1].rows, Runs[1].met)
  /\ BeginProfile(Runs[1].grp, Runs[1].proc, Cases[c].what)
  /\ tabs = << >>

F(name, ok) == IF ok THEN {} ELSE {name}
M == DOMAIN what

(* C07: per << g, p, << cells >> >>, flat << g, << cells >> >> *)
PerProcess ==
  /\ Len(Obs.per) = Cardinality(Keys(1))
  /\ { << x[1], x[2] >> : x \in Range(Obs.per) } = Keys(1)
  /\ \A x \in Range(Obs.per) : x[3] = [m \in M |-> Num(acc[m][<< x[1], x[2] >>])]
Mean ==
  /\ Len(Obs.flat) = Cardinality(GroupsOf(acc[1]))
  /\ { x[1] : x \in Range(Obs.flat) } = GroupsOf(acc[1])
  /\ \A x \in Range(Obs.flat) : x[2] = [m \in M |-> MeanOf(acc[m], x[1])]

(* C08: << g, mean, imbalance, processes >> in the order reported *)
T1 == acc[1]
Known(x) == x[1] \in GroupsOf(T1)
ImbalanceFails ==
  LET R == Obs.imb IN
  F("functions", Len(R) = Cardinality(GroupsOf(T1)) /\ { x[1] : x \in Range(R) } = GroupsOf(T1)) \cup
  F("mean", \A x \in Range(R) : Known(x) => x[2] = MeanOf(T1, x[1])) \cup
  F("imbalance", \A x \in Range(R) : Known(x) /\ TotalOf(T1, x[1]) # 0 => x[3] = ImbalanceOf(T1, x[1])) \cup
  F("top-processes", \A x \in Range(R) : Known(x) => Heaviest(T1, x[1], Obs.k, x[4])) \cup
  F("order", \A i \in 1..(Len(R) - 1) : Known(R[i]) /\ Known(R[i + 1]) => RatLE(MeanOf(T1, R[i + 1][1]), MeanOf(T1, R[i][1])))

(* C09: every ask is [idle |-> own list, mpi |-> requested, got |-> << << p, cell >> >>, kept |-> list unchanged] *)
IdleSet(x) == (IF x.default THEN Range(Cases[c].idle) ELSE Range(x.idle)) \cup (IF x.mpi THEN Range(Cases[c].mpi) ELSE {})
IdleFails ==
  F("processes", \A x \in Range(Obs.asks) : Len(x.got) = Cardinality(Procs) /\ { y[1] : y \in Range(x.got) } = Procs) \cup
  F("idle-time", \A x \in Range(Obs.asks) : \A y \in Range(x.got) : y[1] \in Procs => y[2] = Num(IdleOf(T1, IdleSet(x), y[1]))) \cup
  F("list-kept", \A x \in Range(Obs.asks) : x.kept)

(* C13: [runs |-> numbers of processes, cols |-> groups in order, table |-> cells per run and column] *)
MultirunFails ==
  LET G == AllGroups(1) IN
  F("runs", Obs.procs = [r \in DOMAIN tabs |-> tabs[r].procs]) \cup
  F("columns", Len(Obs.cols) = Cardinality(G) /\ Range(Obs.cols) = G) \cup
  F("entries", Len(Obs.table) = Len(tabs) /\
     \A r \in DOMAIN Obs.table : \A k \in DOMAIN Obs.cols : Obs.cols[k] \in G => Obs.table[r][k] = Entry(1, r, Obs.cols[k])) \cup
  F("order", \A k \in 1..(Len(Obs.cols) - 1) : Range(Obs.cols) \subseteq G =>
     RatLE(ColumnSum(1, Obs.cols[k + 1]), ColumnSum(1, Obs.cols[k])))

Fails ==
  F("recorded-rows-kept", Obs.rows = [r \in DOMAIN Runs |-> Runs[r].rows]) \cup
  CASE Prop = "C07" -> F("per-process", PerProcess) \cup F("mean", Mean)
    [] Prop = "C08" -> ImbalanceFails
    [] Prop = "C09" -> IdleFails
    [] Prop = "C13" -> MultirunFails

Step ==
  \/ pos <= N /\ Take(pos) /\ pos' = pos + 1 /\ UNCHANGED << c, run, pfvars >>
  \/ pos > N /\ StartNest /\ pos' = 1 /\ UNCHANGED << c, run, pfvars >>
  \/ pos > N /\ Finish /\ pos' = 1 /\ UNCHANGED << c, run, pfvars >>
  \/ pos <= N /\ Feed(pos) /\ pos' = pos + 1 /\ UNCHANGED << c, run, csvars >>
  \/ pos <= N /\ phase = "done" /\ ~IsEnter(pos) /\ pos' = pos + 1 /\ UNCHANGED << c, run, csvars, pfvars >>
  \/ pos = N + 1 /\ CloseRun /\ pos' = N + 2 /\ UNCHANGED << c, run, csvars >>

NextRun ==
  /\ phase = "done" /\ pos = N + 2 /\ run < Len(Runs)
  /\ run' = run + 1 /\ pos' = 1 /\ UNCHANGED << c, tabs, what >>
  /\ LET R == Runs[run + 1] 
         n == Len(R.rows)
         L == { R.rows[i][1] : i \in 1..n }
     IN /\ tr' = R.rows /\ met' = R.met /\ phase' = "pair"
        /\ seen' = [q \in L |-> 0] /\ open' = [q \in L |-> << >>]
        /\ mate' = [i \in 1..n |-> 0] /\ par' = [i \in 1..n |-> 0] /\ dep' = [i \in 1..n |-> -1]
        /\ kids' = [i \in 1..n |-> << >>]
        /\ inc' = [k \in DOMAIN R.met |-> [i \in 1..n |-> Missing]]
        /\ exc' = [k \in DOMAIN R.met |-> [i \in 1..n |-> Missing]]
        /\ grp' = R.grp /\ proc' = R.proc /\ fed' = {}
        /\ acc' = [m \in M |-> << >>]

Judge ==
  /\ phase = "done" /\ pos = N + 2 /\ run = Len(Runs)
  /\ PrintT("V " \o ToString(c) \o " " \o ToJson(Fails))
  /\ phase' = "judged"
  /\ UNCHANGED << c, run, pos, tr, met, seen, open, mate, par, dep, kids, inc, exc, pfvars >>

Spec == Init /\ [][Step \/ NextRun \/ Judge]_vars
=============================================================================

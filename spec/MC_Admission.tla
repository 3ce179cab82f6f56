---------------------------- MODULE MC_Admission ----------------------------
EXTENDS Admission, TLC, Json
CONSTANTS MaxPes, Runs, MaxJunk
Descr == { << "sts", e, n >> : e \in 1..Runs, n \in 1..MaxPes }
Logs == { << "log", e, i >> : e \in 1..Runs, i \in 0..MaxPes }
Junk == { << "junk", x, 0 >> : x \in 1..MaxJunk }
(* at most one description per run *)
Projections == { d \in SUBSET (Descr \cup Logs \cup Junk) : \A x, y \in d : x[1] = "sts" /\ y[1] = "sts" /\ x # y => x[2] # y[2] }
(* at most one file of a name *)
Databases == UNION { { { << "db", f, s[f] >> : f \in F } : s \in [F -> 0..3] } : F \in SUBSET Files }
Init ==
  \/ \E d \in Projections : Begin("projections", TRUE, d)
  \/ \E d \in Databases : Begin("hpctoolkit", TRUE, d)
  \/ \E f \in {"projections", "hpctoolkit"} : Begin(f, FALSE, {})
Spec == Init /\ [][Run]_advars /\ WF_advars(Run)
Ends == <>(outcome # "open")
GenNext == /\ outcome = "open" /\ PrintT("G " \o ToJson([format |-> format, isdir |-> isdir, dir |-> dir])) /\ outcome' = "read"
           /\ UNCHANGED << format, isdir, dir, looked, found, checked >>
GenSpec == Init /\ [][GenNext]_advars
=============================================================================

------------------------------ MODULE Session ------------------------------
(* A session with one trace: analyses are called one after another, and add *)
(* derived columns to the events table where they are not there yet.  A     *)
(* derived column is computed from the recorded rows and from the derived   *)
(* columns it depends on.                                                   *)
EXTENDS Val

Derived == {"match", "callers", "time.inc", "m.inc", "time.exc", "m.exc", "node"}

DependsOn(col) ==
  CASE col \in {"match", "node"} -> {}
    [] col \in {"callers", "time.inc", "m.inc"} -> {"match"}
    [] col = "time.exc" -> {"callers", "time.inc"}
    [] col = "m.exc" -> {"callers", "m.inc"}

Ops == {"match", "callers", "inc", "inc_time", "exc", "exc_time", "cct", "matrix", "matrix_count", "by_process", "sizes", "over_time",
        "over_time_recv", "flat", "flat_inc", "flat_per", "imbalance", "idle", "idle_other", "idle_mpi", "profile", "profile_norm", "multirun", "chrome"}

(* the columns a result is made of *)
Uses(op) ==
  CASE op \in {"match"} -> {"match"}
    [] op \in {"callers"} -> {"callers"}
    [] op = "inc" -> {"time.inc", "m.inc"}
    [] op \in {"inc_time", "flat_inc", "idle", "idle_other", "idle_mpi"} -> {"time.inc"}
    [] op = "exc" -> {"time.exc", "m.exc"}
    [] op \in {"exc_time", "flat", "flat_per", "imbalance", "multirun"} -> {"time.exc"}
    [] op = "cct" -> {"node"}
    [] op \in {"profile", "profile_norm"} -> {"callers", "time.inc"}
    [] OTHER -> {}

RECURSIVE Closure(_)
Closure(S) == LET D == S \cup UNION { DependsOn(x) : x \in S } IN IF D = S THEN S ELSE Closure(D)

(* the value a column has to have: what it is, and what it was made from *)
RECURSIVE Right(_)
Right(col) == << col, { Right(d) : d \in DependsOn(col) } >>

VARIABLES
  table,   \* derived column -> value, for the columns that are there
  op,      \* the analysis in progress, "" for none
  result,  \* of the last analysis: << op, values of the columns it used >>
  listed,  \* columns of metrics, in the order in which they were calculated
  past     \* analyses called so far

sevars == << table, op, result, listed, past >>
Metrics == {"time.inc", "m.inc", "time.exc", "m.exc"}

Call(o) ==
  /\ op = "" /\ o \in Ops
  /\ op' = o /\ past' = Append(past, o)
  /\ UNCHANGED << table, result, listed >>

(* a missing column is computed from what the table holds at that time *)
AddColumn(col) ==
  /\ op # "" /\ col \in Closure(Uses(op)) \ DOMAIN table
  /\ DependsOn(col) \subseteq DOMAIN table
  /\ table' = [x \in DOMAIN table \cup {col} |-> IF x = col THEN << col, { table[d] : d \in DependsOn(col) } >> ELSE table[x]]
  /\ listed' = IF col \in Metrics THEN Append(listed, col) ELSE listed
  /\ UNCHANGED << op, result, past >>

Return ==
  /\ op # "" /\ Uses(op) \subseteq DOMAIN table
  /\ result' = << op, { table[x] : x \in Uses(op) } >>
  /\ op' = ""
  /\ UNCHANGED << table, listed, past >>

(* what was returned is the caller's, who may change it *)
Spoil ==
  /\ op = "" /\ result # << >>
  /\ result' = << >>
  /\ UNCHANGED << table, op, listed, past >>

----------------------------------------------------------------------------
SameWhateverCameBefore ==
  result # << >> => result = << result[1], { Right(x) : x \in Uses(result[1]) } >>
ColumnsRight == \A x \in DOMAIN table : table[x] = Right(x)
ListedOnce == /\ Range(listed) = DOMAIN table \cap Metrics
              /\ \A i, j \in DOMAIN listed : listed[i] = listed[j] => i = j
ColumnsKept == [][ \A x \in DOMAIN table : x \in DOMAIN table' /\ table'[x] = table[x] ]_sevars
=============================================================================

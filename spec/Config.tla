------------------------------- MODULE Config -------------------------------
(* Options with a default each.  Values are numbers: 0 is the default, and  *)
(* Valid[o] the values that are valid for option o (0 among them).          *)
EXTENDS Val

VARIABLES
  opts,    \* the options
  valid,   \* option -> its valid values
  cur,     \* option -> current value
  raised,  \* did the last operation raise an error
  ret,     \* what it returned, -1 for nothing
  log      \* operations so far: << kind, option, value >>

cfvars == << opts, valid, cur, raised, ret, log >>

Begin(v) ==
  /\ opts = DOMAIN v /\ valid = v
  /\ cur = [o \in DOMAIN v |-> 0]
  /\ raised = FALSE /\ ret = -1 /\ log = << >>

Note(kind, o, x) == log' = Append(log, << kind, o, x >>)
Same == UNCHANGED << opts, valid >>

Get(o) ==
  /\ Note("get", o, 0) /\ Same /\ UNCHANGED cur
  /\ IF o \in opts THEN raised' = FALSE /\ ret' = cur[o] ELSE raised' = TRUE /\ ret' = -1

Set(o, x) ==
  /\ Note("set", o, x) /\ Same /\ ret' = -1
  /\ IF o \in opts /\ x \in valid[o]
     THEN raised' = FALSE /\ cur' = [cur EXCEPT ![o] = x]
     ELSE raised' = TRUE /\ UNCHANGED cur

Reset(o) ==
  /\ Note("reset", o, 0) /\ Same /\ ret' = -1
  /\ IF o \in opts THEN raised' = FALSE /\ cur' = [cur EXCEPT ![o] = 0] ELSE raised' = TRUE /\ UNCHANGED cur

ResetAll ==
  /\ Note("all", "", 0) /\ Same /\ ret' = -1
  /\ raised' = FALSE /\ cur' = [o \in opts |-> 0]

----------------------------------------------------------------------------
(* Said about the history *)
Sets(o) == { i \in DOMAIN log : log[i][1] = "set" /\ log[i][2] = o /\ log[i][3] \in valid[o] }
Resets(o) == { i \in DOMAIN log : log[i][1] = "all" \/ (log[i][1] = "reset" /\ log[i][2] = o) }
LastOf(S) == IF S = {} THEN 0 ELSE SetMax(S)
MostRecent == \A o \in opts : cur[o] = IF LastOf(Sets(o)) > LastOf(Resets(o)) THEN log[LastOf(Sets(o))][3] ELSE 0
AlwaysValid == \A o \in opts : cur[o] \in valid[o]
FailingChangesNothing == [][raised' => cur' = cur]_cfvars
OthersAlone == [][ \A o \in opts : cur'[o] # cur[o] => log'[Len(log')][2] \in {o, ""} ]_cfvars
=============================================================================

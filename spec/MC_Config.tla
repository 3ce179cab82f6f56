------------------------------ MODULE MC_Config ------------------------------
EXTENDS Config, TLC, Json
CONSTANTS MaxOps, Values

Options == {"a", "b"}
Init == Begin([o \in Options |-> {0} \cup Values])
Room == Len(log) < MaxOps
DoGet == Room /\ \E o \in Options \cup {"?"} : Get(o)
DoSet == Room /\ \E o \in Options \cup {"?"}, x \in {0, -2} \cup Values : Set(o, x)
DoReset == Room /\ \E o \in Options \cup {"?"} : Reset(o)
DoResetAll == Room /\ ResetAll
Next == DoGet \/ DoSet \/ DoReset \/ DoResetAll
Spec == Init /\ [][Next]_cfvars

(* histories for replay; the current values are read after every operation *)
GenNext == DoSet \/ DoReset \/ DoResetAll
           \/ (Len(log) = MaxOps /\ ret # -9 /\ PrintT("G " \o ToJson(log)) /\ ret' = -9 /\ UNCHANGED << opts, valid, cur, raised, log >>)
GenSpec == Init /\ [][GenNext]_cfvars
=============================================================================

----------------------------- MODULE Conf_Config -----------------------------
EXTENDS Config, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, bad
vars == << c, pos, bad, cfvars >>
Steps == Cases[c].steps     \* << kind, option number or 0, value, [raised, ret, cur] >>

Init == /\ c \in 1..Len(Cases) /\ pos = 1
        /\ Begin([o \in DOMAIN Cases[c].valid |-> Range(Cases[c].valid[o])])
        /\ bad = IF Cases[c].first = [o \in DOMAIN Cases[c].valid |-> 0] THEN {} ELSE {"default"}

F(name, ok) == IF ok THEN {} ELSE {name}
Do(s) == CASE s[1] = "get" -> Get(s[2])
           [] s[1] = "set" -> Set(s[2], s[3])
           [] s[1] = "reset" -> Reset(s[2])
           [] s[1] = "all" -> ResetAll

Step ==
  /\ pos <= Len(Steps)
  /\ LET s == Steps[pos] IN
     /\ Do(s)
     /\ bad' = bad \cup F("current-values", s[4].cur = cur')
                   \cup F("error", s[4].raised = raised' \/ (s[1] = "reset" /\ s[2] = 0))
                   \cup F("returned", s[1] = "get" => s[4].ret = ret')
  /\ pos' = pos + 1 /\ UNCHANGED c

Judge == /\ pos = Len(Steps) + 1
         /\ PrintT("V " \o ToString(c) \o " " \o ToJson(bad))
         /\ pos' = pos + 1 /\ UNCHANGED << c, bad, cfvars >>
Spec == Init /\ [][Step \/ Judge]_vars
=============================================================================

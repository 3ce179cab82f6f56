-------------------------- MODULE MC_HpctTimeline --------------------------
EXTENDS HpctTimeline, TLC, Json
CONSTANTS MaxCtxs, MaxLines, MaxSamples, MaxTime

Shapes(k) == { << 0, 4 >> } \cup { << p, kd >> : p \in 1..(k - 1), kd \in 0..2 }
RECURSIVE Trees(_)
Trees(n) == IF n = 1 THEN { << << 0, 4 >> >> } ELSE { Append(t, x) : t \in Trees(n - 1), x \in Shapes(n) }
Rising(s) == \A i \in 1..(Len(s) - 1) : s[i][1] <= s[i + 1][1]
Samples(n) == { s \in UNION { [1..m -> (0..MaxTime) \X (0..n)] : m \in 0..MaxSamples } : Rising(s) }
Init == \E n \in 1..MaxCtxs : \E t \in Trees(n) : \E m \in 1..MaxLines : \E ls \in [1..m -> Samples(n)] : Begin(t, ls, MaxTime)
DoLeave == \E l \in DOMAIN lines : Leave(l)
DoEnter == \E l \in DOMAIN lines : Enter(l)
DoReach == \E l \in DOMAIN lines : Reach(l)
DoEnd == \E l \in DOMAIN lines : End(l)
Next == DoLeave \/ DoEnter \/ DoReach \/ DoEnd
Spec == Init /\ [][Next]_htvars /\ WF_htvars(Next)
AllReached == <>AllDone

GenNext == done = {} /\ PrintT("G " \o ToJson([ctxs |-> ctxs, lines |-> lines])) /\ done' = {0}
           /\ UNCHANGED << ctxs, lines, finish, pos, open, rows >>
GenSpec == Init /\ [][GenNext]_htvars
=============================================================================

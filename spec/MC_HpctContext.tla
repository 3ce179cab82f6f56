--------------------------- MODULE MC_HpctContext ---------------------------
EXTENDS HpctContext, TLC, Json
CONSTANTS MaxCtxs, MaxFns

FnShapes == { << 1, 1, 7 >>, << 0, 2, 8 >>, << 2, 0, 0 >> }
Shapes(k) == IF k = 1 THEN { << 0, Entry, 1, 0, -1 >> }
             ELSE { << 0, Entry, 2, 0, -1 >> } \cup
                  { << p, kd, f, s[1], s[2] >> : p \in 1..(k - 1), kd \in 0..3, f \in 0..MaxFns, s \in { NoSource, << 1, k >> } }
(* functions without, loops and lines with a place, instructions without one *)
Sane(x) == CASE x[2] = Entry -> TRUE
             [] x[2] = Func -> TRUE
             [] x[2] \in {Loop, Line} -> x[3] = 0 /\ x[4] # 0
             [] OTHER -> x[3] = 0 /\ x[4] = 0
RECURSIVE Trees(_)
Trees(n) == IF n = 1 THEN { << x >> : x \in Shapes(1) }
            ELSE { Append(t, x) : t \in Trees(n - 1), x \in { y \in Shapes(n) : Sane(y) } }
Init == \E n \in 1..MaxCtxs : \E t \in Trees(n) : \E f \in [1..MaxFns -> FnShapes] : Begin(t, f)
Next == ReadEntry \/ ReadFunction \/ ReadLoop \/ ReadInner
Spec == Init /\ [][Next]_hcvars

GenNext == node = << >> /\ PrintT("G " \o ToJson([ctxs |-> ctxs, fns |-> fns])) /\ node' = << 0 >> /\ UNCHANGED << ctxs, fns, up, src, name >>
GenSpec == Init /\ [][GenNext]_hcvars
=============================================================================

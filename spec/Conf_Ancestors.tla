--------------------------- MODULE Conf_Ancestors ---------------------------
(* Every question put to the real nodes is answered by climbing the forest. *)
EXTENDS Ancestors, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, bad
vars == << c, pos, bad, anvars >>
Obs == Cases[c].obs
Meets == Obs.meets    \* << x, y, answer >>
Paths == Obs.paths    \* << x, floor, answer >>

Init == /\ c \in 1..Len(Cases) /\ pos = 1 /\ bad = {}
        /\ up = << >> /\ level = << >> /\ phase = "grow"
        /\ a = 0 /\ b = 0 /\ path = << >> /\ floor = 0 /\ q = << 0, 0 >>

DoGrow == /\ phase = "grow" /\ pos <= Len(Cases[c].up)
          /\ Grow(Cases[c].up[pos]) /\ pos' = pos + 1 /\ UNCHANGED << c, bad >>
DoGrown == /\ phase = "grow" /\ pos > Len(Cases[c].up) /\ Grown
           /\ pos' = 1 /\ UNCHANGED c
           /\ bad' = (IF Obs.level = level THEN {} ELSE {"level"})
Ask == /\ phase = "ask" /\ pos <= Len(Meets) + Len(Paths)
       /\ IF pos <= Len(Meets) THEN AskMeet(Meets[pos][1], Meets[pos][2])
          ELSE AskPath(Paths[pos - Len(Meets)][1], Paths[pos - Len(Meets)][2])
       /\ UNCHANGED << c, pos, bad >>
Climb == (ClimbDeeper \/ ClimbBoth \/ ClimbPath) /\ UNCHANGED << c, pos, bad >>
Answer == /\ Again
          /\ bad' = bad \cup (IF phase = "meet"
                              THEN IF Meets[pos][3] = a THEN {} ELSE {"common-ancestor"}
                              ELSE IF Paths[pos - Len(Meets)][3] = path THEN {} ELSE {"path"})
          /\ pos' = pos + 1 /\ UNCHANGED c
Judge == /\ phase = "ask" /\ pos > Len(Meets) + Len(Paths)
         /\ PrintT("V " \o ToString(c) \o " " \o ToJson(bad))
         /\ phase' = "judged" /\ UNCHANGED << c, pos, bad, up, level, a, b, path, floor, q >>

Spec == Init /\ [][DoGrow \/ DoGrown \/ Ask \/ Climb \/ Answer \/ Judge]_vars
=============================================================================

---------------------------- MODULE MC_Ancestors ----------------------------
EXTENDS Ancestors, TLC, Json
CONSTANT MaxNodes

Init == /\ up = << >> /\ level = << >> /\ phase = "grow"
        /\ a = 0 /\ b = 0 /\ path = << >> /\ floor = 0 /\ q = << 0, 0 >>

DoGrowRoot  == Len(up) < MaxNodes /\ GrowRoot
DoGrowChild == Len(up) < MaxNodes /\ \E p \in Nodes : GrowChild(p)
DoGrown     == up # << >> /\ Grown
DoAskMeet   == \E x \in Nodes, y \in Nodes \cup {0} : AskMeet(x, y)
DoAskPath   == \E x \in Nodes, f \in -2..MaxNodes : AskPath(x, f)
DoDeeper    == ClimbDeeper
DoBoth      == ClimbBoth
DoPath      == ClimbPath
Next == DoGrowRoot \/ DoGrowChild \/ DoGrown \/ DoAskMeet \/ DoAskPath \/ DoDeeper \/ DoBoth \/ DoPath
Spec == Init /\ [][Next]_anvars

GenNext == \/ DoGrowRoot \/ DoGrowChild
           \/ (up # << >> /\ PrintT("G " \o ToJson(up)) /\ Grown)
GenSpec == Init /\ [][GenNext]_anvars
=============================================================================

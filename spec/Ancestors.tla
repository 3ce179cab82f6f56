----------------------------- MODULE Ancestors -----------------------------
(* A forest of contexts that grows node by node, and the two walks on it:   *)
(* two cursors that climb until they meet (common ancestor), and one that   *)
(* climbs while it is below a level (path).                                 *)
EXTENDS Val

VARIABLES
  up,     \* node -> its parent, 0 for a root
  level,  \* node -> its level
  phase,  \* "grow", "ask", "meet", "climb"
  a, b,   \* cursors, 0 when off the top
  path,   \* nodes climbed so far
  floor,  \* climbing stops at this level
  q       \* what was asked: << a, b >> or << a, floor >>

anvars == << up, level, phase, a, b, path, floor, q >>
Nodes == DOMAIN up
LevelOf(x) == IF x = 0 THEN -1 ELSE level[x]
UpOf(x) == IF x = 0 THEN 0 ELSE up[x]

GrowRoot ==
  /\ phase = "grow"
  /\ up' = Append(up, 0) /\ level' = Append(level, 0)
  /\ UNCHANGED << phase, a, b, path, floor, q >>
GrowChild(p) ==
  /\ phase = "grow" /\ p \in Nodes
  /\ up' = Append(up, p) /\ level' = Append(level, level[p] + 1)
  /\ UNCHANGED << phase, a, b, path, floor, q >>
Grow(p) == IF p = 0 THEN GrowRoot ELSE GrowChild(p)

Grown == phase = "grow" /\ phase' = "ask" /\ UNCHANGED << up, level, a, b, path, floor, q >>

AskMeet(x, y) ==    \* x is a node, y may be none
  /\ phase = "ask"
  /\ phase' = "meet" /\ q' = << x, y >>
  /\ a' = IF y = 0 THEN 0 ELSE x
  /\ b' = y
  /\ UNCHANGED << up, level, path, floor >>
AskPath(x, f) ==
  /\ phase = "ask"
  /\ phase' = "climb" /\ q' = << x, f >>
  /\ a' = x /\ floor' = f /\ path' = << >>
  /\ UNCHANGED << up, level, b >>

ClimbDeeper ==      \* the deeper cursor
  /\ phase = "meet" /\ LevelOf(a) # LevelOf(b)
  /\ IF LevelOf(a) > LevelOf(b) THEN a' = UpOf(a) /\ b' = b ELSE a' = a /\ b' = UpOf(b)
  /\ UNCHANGED << up, level, phase, path, floor, q >>
ClimbBoth ==
  /\ phase = "meet" /\ LevelOf(a) = LevelOf(b) /\ a # b
  /\ a' = UpOf(a) /\ b' = UpOf(b)
  /\ UNCHANGED << up, level, phase, path, floor, q >>
Met == phase = "meet" /\ a = b
ClimbPath ==
  /\ phase = "climb" /\ a # 0 /\ LevelOf(a) > floor
  /\ path' = Append(path, a) /\ a' = UpOf(a)
  /\ UNCHANGED << up, level, phase, b, floor, q >>
Climbed == phase = "climb" /\ (a = 0 \/ LevelOf(a) <= floor)

Again == /\ Met \/ Climbed
         /\ phase' = "ask" /\ UNCHANGED << up, level, a, b, path, floor, q >>

----------------------------------------------------------------------------
(* Said without walking *)
RECURSIVE AncestorsOf(_)
AncestorsOf(x) == IF x = 0 THEN {} ELSE {x} \cup AncestorsOf(up[x])

Deepest(S) == CHOOSE x \in S : \A y \in S : level[y] <= level[x]
Common(x, y) == AncestorsOf(x) \cap AncestorsOf(y)

LevelsRight == \A x \in Nodes : level[x] = Cardinality(AncestorsOf(x)) - 1
MetRight == Met => a = IF Common(q[1], q[2]) = {} THEN 0 ELSE Deepest(Common(q[1], q[2]))
(* whichever is asked for first: the deepest common ancestor is the only one of its level *)
MetSymmetric == Met => \A x \in Common(q[1], q[2]) : level[x] = level[a] => x = a
PathRight ==
  Climbed =>
    /\ Range(path) = { x \in AncestorsOf(q[1]) : level[x] > q[2] }
    /\ \A i \in 1..(Len(path) - 1) : up[path[i]] = path[i + 1]
=============================================================================

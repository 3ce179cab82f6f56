------------------------------- MODULE Nsight -------------------------------
(* A report of ranges << process id, thread id, start, end >>.  At each      *)
(* time, ranges are left and entered one by one: of a thread, what ends is   *)
(* left before anything starts, inner ranges first; what starts is entered,  *)
(* outer ranges first.                                                       *)
EXTENDS Val

VARIABLES
  ranges,
  entered, left,   \* ranges that have been
  open,            \* << pid, tid >> -> ranges open, innermost last
  parent,          \* range -> the range it was entered in, 0 if none
  now,
  rows             \* << time, type, range >>

nsvars == << ranges, entered, left, open, parent, now, rows >>
Ids == DOMAIN ranges
Loc(r) == << ranges[r][1], ranges[r][2] >>
Start(r) == ranges[r][3]
End(r) == ranges[r][4]
Empty(r) == Start(r) = End(r)
Locs == { Loc(r) : r \in Ids }
Mates(r) == { s \in Ids : Loc(s) = Loc(r) /\ s # r }

Begin(rs) == /\ ranges = rs /\ entered = {} /\ left = {} /\ now = -1 /\ rows = << >>
             /\ open = [l \in { << rs[r][1], rs[r][2] >> : r \in DOMAIN rs } |-> << >>]
             /\ parent = [r \in DOMAIN rs |-> 0]
Last(s) == s[Len(s)]
(* Times left to pass; nothing is passed over. *)
Due == { Start(r) : r \in Ids \ entered } \cup { End(r) : r \in Ids \ left }
Next0 == LET due == Due IN CHOOSE x \in due : \A y \in due : x <= y

EnterOk(r) ==
  /\ r \in Ids \ entered
  /\ \A o \in Range(open[Loc(r)]) : ~Empty(r) => End(o) # Start(r)                    \* ended ranges have been left
  /\ ~Empty(r) => \A s \in Mates(r) : s \notin entered /\ Start(s) = Start(r) => End(s) <= End(r)   \* outer ranges first
EnterRange(r) ==
  /\ EnterOk(r) /\ Start(r) = Next0
  /\ entered' = entered \cup {r}
  /\ parent' = [parent EXCEPT ![r] = IF open[Loc(r)] = << >> THEN 0 ELSE Last(open[Loc(r)])]
  /\ open' = [open EXCEPT ![Loc(r)] = Append(@, r)]
  /\ now' = Start(r)
  /\ rows' = Append(rows, << Start(r), 0, r >>)
  /\ UNCHANGED << ranges, left >>
LeaveOk(r) == /\ r \in entered \ left
              /\ open[Loc(r)] # << >> /\ r = Last(open[Loc(r)])
LeaveRange(r) ==
  /\ LeaveOk(r) /\ End(r) = Next0
  /\ left' = left \cup {r}
  /\ open' = [open EXCEPT ![Loc(r)] = SubSeq(@, 1, Len(@) - 1)]
  /\ now' = End(r)
  /\ rows' = Append(rows, << End(r), 1, r >>)
  /\ UNCHANGED << ranges, entered, parent >>
Complete == left = Ids

----------------------------------------------------------------------------
(* Of a thread, any two ranges are apart or one is within the other. *)
Apart(r, s) == End(r) <= Start(s) \/ End(s) <= Start(r)
Within(r, s) == Start(s) <= Start(r) /\ End(r) <= End(s)
Laminar == \A r \in Ids : \A s \in Mates(r) : Apart(r, s) \/ Within(r, s) \/ Within(s, r)

InTime == \A i \in 1..(Len(rows) - 1) : rows[i][1] <= rows[i + 1][1]
Once == \A r \in Ids : /\ Cardinality({ i \in DOMAIN rows : rows[i] = << Start(r), 0, r >> }) = (IF r \in entered THEN 1 ELSE 0)
                       /\ Cardinality({ i \in DOMAIN rows : rows[i] = << End(r), 1, r >> }) = (IF r \in left THEN 1 ELSE 0)
(* The smallest range around, for ranges that are not empty; of equal ones,  *)
(* one is within the other.                                                  *)
Around(r) == { s \in Mates(r) : Within(r, s) /\ ~Within(s, r) }
Smallest(r) == \A s \in Around(r) : parent[r] # 0 /\ Within(parent[r], s)
ParentRight == \A r \in entered : ~Empty(r) => Smallest(r) /\ (parent[r] # 0 => Within(r, parent[r]))
(* Ranges that follow each other are not within each other. *)
RECURSIVE Ups(_)
Ups(r) == IF r = 0 THEN {} ELSE {r} \cup Ups(parent[r])
Siblings == \A r, s \in entered : r # s /\ ~Empty(r) /\ ~Empty(s) /\ Apart(r, s) => r \notin Ups(s)
=============================================================================

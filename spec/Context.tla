------------------------------ MODULE Context ------------------------------
(* How recorded events become a calling context tree.  Every location has   *)
(* a cursor and a stack of open calls; the tree is shared.  A node is made   *)
(* the first time a function is entered in a context: the context is the    *)
(* node of the innermost open call.                                         *)
EXTENDS Val

EnterT == 0
LeaveT == 1

VARIABLES
  tr,     \* rows << location, type, name, time >>
  phase,  \* "record", "walk", "done"
  seen,   \* location -> last row processed
  open,   \* location -> stack of rows of open enters
  nodes,  \* the tree: sequence of << parent node or 0, name >>
  node    \* row -> its node, 0 for none

ctvars == << tr, phase, seen, open, nodes, node >>

N == Len(tr)
Rows == 1..N
LocOf(i)  == tr[i][1]
NameOf(i) == tr[i][3]
IsEnter(i) == tr[i][2] = EnterT
IsLeave(i) == tr[i][2] = LeaveT
Locs == { LocOf(i) : i \in Rows }
Top(s) == s[Len(s)]

Ready(i) == /\ seen[LocOf(i)] < i
            /\ \A j \in (seen[LocOf(i)] + 1)..(i - 1) : LocOf(j) # LocOf(i)
AllSeen == \A i \in Rows : seen[LocOf(i)] >= i

Begin(rows) ==
  /\ tr = rows
  /\ phase = "walk"
  /\ seen = [q \in { rows[i][1] : i \in 1..Len(rows) } |-> 0]
  /\ open = [q \in { rows[i][1] : i \in 1..Len(rows) } |-> << >>]
  /\ nodes = << >>
  /\ node = [i \in 1..Len(rows) |-> 0]

See(i) == seen' = [seen EXCEPT ![LocOf(i)] = i]

ContextOf(i) == LET s == open[LocOf(i)] IN IF s = << >> THEN 0 ELSE node[Top(s)]
Known(i) == LET it == << ContextOf(i), NameOf(i) >> IN { k \in DOMAIN nodes : nodes[k] = it }

EnterKnown(i) ==
  /\ IsEnter(i) /\ Known(i) # {}
  /\ node' = [node EXCEPT ![i] = CHOOSE k \in Known(i) : TRUE]
  /\ open' = [open EXCEPT ![LocOf(i)] = Append(@, i)]
  /\ See(i) /\ UNCHANGED << tr, phase, nodes >>

EnterNew(i) ==
  /\ IsEnter(i) /\ Known(i) = {}
  /\ nodes' = Append(nodes, << ContextOf(i), NameOf(i) >>)
  /\ node' = [node EXCEPT ![i] = Len(nodes) + 1]
  /\ open' = [open EXCEPT ![LocOf(i)] = Append(@, i)]
  /\ See(i) /\ UNCHANGED << tr, phase >>

Innermost(i) ==     \* position in the stack of the open call that leave i ends, 0 for none
  LET s == open[LocOf(i)]
      n == NameOf(i)
      c == { k \in DOMAIN s : NameOf(s[k]) = n }
  IN IF c = {} THEN 0 ELSE SetMax(c)

LeaveOpen(i) ==
  /\ IsLeave(i) /\ Innermost(i) # 0
  /\ LET p == Innermost(i) IN open' = [open EXCEPT ![LocOf(i)] = SubSeq(@, 1, p - 1) \o SubSeq(@, p + 1, Len(@))]
  /\ See(i) /\ UNCHANGED << tr, phase, nodes, node >>

Pass(i) ==          \* stray leaves and all other events
  /\ ~IsEnter(i) /\ (IsLeave(i) => Innermost(i) = 0)
  /\ See(i) /\ UNCHANGED << tr, phase, open, nodes, node >>

Take(i) == EnterKnown(i) \/ EnterNew(i) \/ LeaveOpen(i) \/ Pass(i)

Walking == phase = "walk"
DoEnterKnown == Walking /\ \E i \in Rows : Ready(i) /\ EnterKnown(i)
DoEnterNew   == Walking /\ \E i \in Rows : Ready(i) /\ EnterNew(i)
DoLeaveOpen  == Walking /\ \E i \in Rows : Ready(i) /\ LeaveOpen(i)
DoPass       == Walking /\ \E i \in Rows : Ready(i) /\ Pass(i)
Finish == Walking /\ AllSeen /\ phase' = "done" /\ UNCHANGED << tr, seen, open, nodes, node >>
Walk == DoEnterKnown \/ DoEnterNew \/ DoLeaveOpen \/ DoPass \/ Finish

RECURSIVE Level(_)
Level(k) == IF nodes[k][1] = 0 THEN 0 ELSE 1 + Level(nodes[k][1])
Children(k) == { m \in DOMAIN nodes : nodes[m][1] = k }
Roots == { m \in DOMAIN nodes : nodes[m][1] = 0 }

----------------------------------------------------------------------------
(* What it has to come to, said about the recording alone *)

(* the rows at which the calls of a location end: e -> l, by counting from e *)
RECURSIVE EndFrom(_, _, _)
EndFrom(e, j, more) ==     \* scanning from row j, with `more` newer calls of that name open
  IF j > N THEN N + 1
  ELSE IF LocOf(j) # LocOf(e) \/ NameOf(j) # NameOf(e) THEN EndFrom(e, j + 1, more)
  ELSE IF IsEnter(j) THEN EndFrom(e, j + 1, more + 1)
  ELSE IF IsLeave(j) THEN (IF more = 0 THEN j ELSE EndFrom(e, j + 1, more - 1))
  ELSE EndFrom(e, j + 1, more)
End(e) == EndFrom(e, e + 1, 0)

Around(i) == { f \in 1..(i - 1) : IsEnter(f) /\ LocOf(f) = LocOf(i) /\ End(f) > i }
Inner(i) == IF Around(i) = {} THEN 0 ELSE SetMax(Around(i))

(* the context of an enter: its own function after the context of the innermost open call *)
RECURSIVE Chain(_)
Chain(i) == IF Inner(i) = 0 THEN << NameOf(i) >> ELSE Append(Chain(Inner(i)), NameOf(i))

RECURSIVE PathOf(_)
PathOf(k) == IF nodes[k][1] = 0 THEN << nodes[k][2] >> ELSE Append(PathOf(nodes[k][1]), nodes[k][2])

OneNodePerContext ==
  phase = "done" =>
    \A i, j \in Rows : IsEnter(i) /\ IsEnter(j) => ((node[i] = node[j]) <=> (Chain(i) = Chain(j)))

NodesAreContexts ==
  phase = "done" =>
    /\ \A i \in Rows : IF IsEnter(i) THEN node[i] # 0 /\ PathOf(node[i]) = Chain(i) ELSE node[i] = 0
    /\ \A i \in Rows : IsEnter(i) => nodes[node[i]][1] = (IF Inner(i) = 0 THEN 0 ELSE node[Inner(i)])
    /\ \A k \in DOMAIN nodes : \E i \in Rows : node[i] = k
    /\ \A k \in DOMAIN nodes : Level(k) = Len(PathOf(k)) - 1

(* for well-nested recordings: the functions of all open calls, from the root down *)
Nested == \A e \in Rows, f \in Rows :
            (IsEnter(e) /\ f \in (e + 1)..N /\ IsEnter(f) /\ LocOf(e) = LocOf(f) /\ f < End(e)) => End(f) <= End(e)
Stack(i) == LET s == SelectSeq([x \in Rows |-> x], LAMBDA x : x \in Around(i) \/ x = i) IN
            [k \in DOMAIN s |-> NameOf(s[k])]
NestedContexts ==
  (phase = "done" /\ Nested) => \A i \in Rows : IsEnter(i) => PathOf(node[i]) = Stack(i)

TreeGrows == [][ /\ Len(nodes') >= Len(nodes)
                 /\ \A k \in DOMAIN nodes : nodes'[k] = nodes[k] ]_ctvars
=============================================================================

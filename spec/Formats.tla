------------------------------ MODULE Formats ------------------------------
(* A recording is one stream of events per location.  Whatever the format,  *)
(* reading merges the streams in order of time, and where two locations     *)
(* have events at one time it may take either first.  The analyses then     *)
(* work on the merged table.  What they come to for a location is settled   *)
(* by its stream alone, whatever the merge.                                 *)
(*                                                                          *)
(* A stream's entry is << type, name, time, readings >>, with one reading   *)
(* (or none) per further numeric column.                                    *)
EXTENDS Profile

VARIABLES
  streams,   \* location -> its recorded events
  at         \* location -> how many have been read

fmvars == << streams, at >>
Places == DOMAIN streams
Total == SumSet([q \in Places |-> Len(streams[q])], Places)
NextTime(q) == streams[q][at[q] + 1][3]
Waiting == { q \in Places : at[q] < Len(streams[q]) }
(* the locations whose next event may come next in the table *)
Turn == { q \in Waiting : \A p \in Waiting : NextTime(q) <= NextTime(p) }

BeginReading(s, ncols) ==
  /\ streams = s /\ at = [q \in DOMAIN s |-> 0]
  /\ tr = << >> /\ met = [k \in 1..(ncols + 1) |-> << >>]
  /\ phase = "merge"
  /\ seen = << >> /\ open = << >> /\ mate = << >> /\ par = << >> /\ dep = << >> /\ kids = << >>
  /\ inc = << >> /\ exc = << >>

Read(q) ==
  /\ phase = "merge" /\ q \in Turn
  /\ LET e == streams[q][at[q] + 1] IN
     /\ tr' = Append(tr, << q, e[1], e[2], e[3] >>)
     /\ met' = [k \in DOMAIN met |-> Append(met[k], IF k = 1 THEN Num(e[3]) ELSE e[4][k - 1])]
  /\ at' = [at EXCEPT ![q] = @ + 1]
  /\ UNCHANGED << streams, phase, seen, open, mate, par, dep, kids, inc, exc >>

AllRead == Waiting = {}

StartWork ==
  /\ phase = "merge" /\ AllRead
  /\ phase' = "pair"
  /\ seen' = [q \in Locs |-> 0] /\ open' = [q \in Locs |-> << >>]
  /\ mate' = [i \in Rows |-> 0] /\ par' = [i \in Rows |-> 0] /\ dep' = [i \in Rows |-> -1]
  /\ kids' = [i \in Rows |-> << >>]
  /\ inc' = [k \in Cols |-> [i \in Rows |-> Missing]]
  /\ exc' = [k \in Cols |-> [i \in Rows |-> Missing]]
  /\ UNCHANGED << streams, at, tr, met >>

----------------------------------------------------------------------------
(* The table holds the streams, each in its order, and is in order of time *)
Own(q) == SelectSeq([i \in Rows |-> i], LAMBDA i : LocOf(i) = q)
StreamsHeld ==
  /\ \A q \in Places : LET o == Own(q) IN
       /\ Len(o) = at[q]
       /\ \A k \in DOMAIN o : << TypeOf(o[k]), NameOf(o[k]), TimeOf(o[k]) >> = SubSeq(streams[q][k], 1, 3)
  /\ \A i, j \in Rows : i < j => TimeOf(i) <= TimeOf(j)

(* calls of a stream by itself: pairs of positions in it *)
StreamPairs(s) ==
  LET RECURSIVE Fold(_, _, _)
      Fold(k, stack, m) ==
        IF k > Len(s) THEN m
        ELSE IF s[k][1] = EnterT THEN Fold(k + 1, Append(stack, k), m)
        ELSE IF s[k][1] = LeaveT
        THEN LET c == { x \in DOMAIN stack : s[stack[x]][2] = s[k][2] } IN
             IF c = {} THEN Fold(k + 1, stack, m)
             ELSE LET e == stack[SetMax(c)] IN Fold(k + 1, Without(stack, e), m \cup {<< e, k >>})
        ELSE Fold(k + 1, stack, m)
  IN Fold(1, << >>, {})

Position(i) == Cardinality({ j \in 1..i : LocOf(j) = LocOf(i) })
PairsAsInStreams ==
  phase = "done" =>
    \A q \in Places : { << Position(e), Position(mate[e]) >> : e \in { x \in Completed : LocOf(x) = q } } = StreamPairs(streams[q])

(* who encloses whom, and the time spent, by streams alone *)
Around(s, pr) == { x \in StreamPairs(s) : x[1] < pr[1] /\ pr[1] < x[2] }
NestedAsInStreams ==
  phase = "done" =>
    \A e \in Completed :
      LET q == LocOf(e)  a == Around(streams[q], << Position(e), Position(mate[e]) >>) IN
      /\ dep[e] = Cardinality(a)
      /\ par[e] = 0 <=> a = {}
      /\ par[e] # 0 => Position(par[e]) = SetMax({ x[1] : x \in a })

(* sums of inclusive time per function and process, by streams alone *)
SpentIn(q, g) == LET s == streams[q]  P == { x \in StreamPairs(s) : s[x[1]][2] = g } IN
                 SumSet([x \in P |-> s[x[2]][3] - s[x[1]][3]], P)
SumsAsInStreams ==
  Fed => \A m \in DOMAIN what : what[m] = << "inc", 1 >> =>
    \A k \in Keys(m) : LET Q == { q \in Locs : proc[q] = k[2] } IN
      acc[m][k] = SumSet([q \in Q |-> SpentIn(q, k[1])], Q)
=============================================================================

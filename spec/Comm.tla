-------------------------------- MODULE Comm --------------------------------
(* Processes that exchange messages, the trace they leave, and how its      *)
(* messages are counted: by sender and receiver, over time, and by size.    *)
(* A row is << process, kind, peer, size, time >>.                          *)
EXTENDS Val, TLC

SendK == {1, 2}     \* blocking and non-blocking send
RecvK == {3, 4}
OtherK == 5         \* anything else

VARIABLES
  tr,      \* the recorded rows
  flying,  \* bag of messages sent and not received: sequence of << sender, receiver, size >>
  phase,   \* "record", "count"
  pos,     \* rows counted so far
  cnt,     \* << sender, receiver >> -> number of messages
  siz,     \* << sender, receiver >> -> bytes
  asks,    \* histograms asked for, see Weight and BinOf
  hist     \* ask -> interval -> total

cmvars == << tr, flying, phase, pos, cnt, siz, asks, hist >>

N == Len(tr)
Rows == 1..N
ProcOf(i) == tr[i][1]
KindOf(i) == tr[i][2]
PeerOf(i) == tr[i][3]
SizeOf(i) == tr[i][4]
TimeOf(i) == tr[i][5]
IsSend(i) == KindOf(i) \in SendK
IsRecv(i) == KindOf(i) \in RecvK
Sends == { i \in Rows : IsSend(i) }
Recvs == { i \in Rows : IsRecv(i) }

----------------------------------------------------------------------------
(* The system: messages are sent, fly, and are received *)
Send(p, r, s, k, t) ==
  /\ phase = "record"
  /\ tr' = Append(tr, << p, k, r, s, t >>)
  /\ flying' = Append(flying, << p, r, s >>)
  /\ UNCHANGED << phase, pos, cnt, siz, asks, hist >>

Receive(m, k, t) ==
  /\ phase = "record" /\ m \in DOMAIN flying
  /\ tr' = Append(tr, << flying[m][2], k, flying[m][1], flying[m][3], t >>)
  /\ flying' = SubSeq(flying, 1, m - 1) \o SubSeq(flying, m + 1, Len(flying))
  /\ UNCHANGED << phase, pos, cnt, siz, asks, hist >>

Else(p, t) ==
  /\ phase = "record"
  /\ tr' = Append(tr, << p, OtherK, 0, 0, t >>)
  /\ UNCHANGED << flying, phase, pos, cnt, siz, asks, hist >>

----------------------------------------------------------------------------
(* The analysis.  An ask is [what, by, nb, edges]: what is "send", "recv"   *)
(* or "sizes"; by is "count" or "size"; the intervals are nb equal ones, or *)
(* the given edges if nb = 0.                                               *)
Extent(a) ==   \* << from, to >> of equal intervals
  LET X == IF a.what = "sizes" THEN { SizeOf(i) : i \in Sends } ELSE { TimeOf(i) : i \in Rows } IN
  IF X = {} THEN << 0, 0 >> ELSE << SetMin(X), SetMax(X) >>

Intervals(a) == IF a.nb > 0 THEN a.nb ELSE Len(a.edges) - 1

(* the interval of x, 0 if it is outside all of them *)
BinOf(a, x) ==
  IF a.nb > 0
  THEN LET lo == Extent(a)[1]
           w == Extent(a)[2] - lo
       IN IF w = 0 THEN 1 ELSE Min2(a.nb, (a.nb * (x - lo)) \div w + 1)
  ELSE LET B == { b \in 1..(Len(a.edges) - 1) :
                    /\ a.edges[b] <= x
                    /\ x < a.edges[b + 1] \/ (b = Len(a.edges) - 1 /\ x = a.edges[b + 1]) }
       IN IF B = {} THEN 0 ELSE CHOOSE b \in B : TRUE

Concerns(a, i) == IF a.what = "recv" THEN IsRecv(i) ELSE IsSend(i)
Coord(a, i) == IF a.what = "sizes" THEN SizeOf(i) ELSE TimeOf(i)
WeightOf(a, i) == IF a.by = "size" THEN SizeOf(i) ELSE 1

Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = @ + v] ELSE (k :> v) @@ f

StartCount(questions) ==
  /\ phase = "record"
  /\ phase' = "count" /\ pos' = 0
  /\ asks' = questions
  /\ hist' = [k \in DOMAIN questions |-> [b \in 1..Intervals(questions[k]) |-> 0]]
  /\ UNCHANGED << tr, flying, cnt, siz >>

Count(i) ==
  /\ phase = "count" /\ i = pos + 1 /\ i \in Rows
  /\ pos' = i
  /\ IF IsSend(i)
     THEN /\ cnt' = Put(cnt, << ProcOf(i), PeerOf(i) >>, 1)
          /\ siz' = Put(siz, << ProcOf(i), PeerOf(i) >>, SizeOf(i))
     ELSE UNCHANGED << cnt, siz >>
  /\ hist' = [k \in DOMAIN asks |->
       LET a == asks[k] IN
       IF Concerns(a, i) /\ BinOf(a, Coord(a, i)) # 0
       THEN [hist[k] EXCEPT ![BinOf(a, Coord(a, i))] = @ + WeightOf(a, i)] ELSE hist[k]]
  /\ UNCHANGED << tr, flying, phase, asks >>

Counted == phase = "count" /\ pos = N

Cell(f, s, r) == IF << s, r >> \in DOMAIN f THEN f[<< s, r >>] ELSE 0
SentBy(f, p, P) == SumSet([r \in P |-> Cell(f, p, r)], P)
ReceivedBy(f, p, P) == SumSet([s \in P |-> Cell(f, s, p)], P)

----------------------------------------------------------------------------
(* What it has to come to *)
Conservation ==    \* of messages, in the system
  /\ Cardinality(Sends) = Cardinality(Recvs) + Len(flying)
  /\ SumSet([i \in Sends |-> SizeOf(i)], Sends)
       = SumSet([i \in Recvs |-> SizeOf(i)], Recvs) + SumSeq([m \in DOMAIN flying |-> flying[m][3]])

MatrixRight == Counted =>
  LET P == { ProcOf(i) : i \in Rows } \cup { PeerOf(i) : i \in Sends } IN
  /\ \A s, r \in P :
       LET M == { i \in Sends : ProcOf(i) = s /\ PeerOf(i) = r } IN
       Cell(cnt, s, r) = Cardinality(M) /\ Cell(siz, s, r) = SumSet([i \in M |-> SizeOf(i)], M)
  /\ SumSet([p \in P |-> SentBy(cnt, p, P)], P) = Cardinality(Sends)
  /\ SumSet([p \in P |-> ReceivedBy(cnt, p, P)], P) = Cardinality(Sends)
  /\ SumSet([p \in P |-> SentBy(siz, p, P)], P) = SumSet([p \in P |-> ReceivedBy(siz, p, P)], P)

(* an interval of equal ones, said with edges: x lies in [lo + (b-1)w/n, lo + bw/n), or at the very end *)
InInterval(a, b, x) ==
  LET lo == Extent(a)[1]
      w == Extent(a)[2] - lo
  IN /\ (b - 1) * w <= a.nb * (x - lo)
     /\ a.nb * (x - lo) < b * w \/ (b = a.nb /\ a.nb * (x - lo) = b * w)

HistogramsRight == Counted =>
  \A k \in DOMAIN asks :
    LET a == asks[k]
        M == { i \in Rows : Concerns(a, i) }
    IN a.nb > 0 =>
       /\ SumSeq(hist[k]) = SumSet([i \in M |-> WeightOf(a, i)], M)
       /\ Extent(a)[1] < Extent(a)[2] =>
            \A b \in 1..a.nb :
              LET In == { i \in M : InInterval(a, b, Coord(a, i)) } IN
              hist[k][b] = SumSet([i \in In |-> WeightOf(a, i)], In)
=============================================================================

---------------------------- MODULE ParallelRead ----------------------------
(* Workers each read a share of consecutive locations and bring their rows, *)
(* in order of time (those of one time in order of location, those of one   *)
(* location in its order); they finish in any order.  What they bring is    *)
(* put together in the order of the shares, and then in order of time.      *)
EXTENDS Val

VARIABLES
  data,     \* times of the rows of each location
  workers,  \* how many there are
  brought,  \* rows << time, location, number >> of the workers that are through, by worker
  order,    \* workers in the order they finished in
  table     \* << >> until all are through; then << rows >>

parvars == << data, workers, brought, order, table >>

N == Len(data)
Locs == 1..N
Base == N \div workers
Rest == N % workers
First(w) == IF w <= Rest THEN (w - 1) * (Base + 1) + 1 ELSE (w - 1) * Base + Rest + 1
Last(w) == First(w + 1) - 1
Share(w) == First(w)..Last(w)
Through == { order[i] : i \in DOMAIN order }

Begin(d, k) ==
  /\ data = d /\ workers = k
  /\ brought = [w \in 1..k |-> << >>]
  /\ order = << >>
  /\ table = << >>

(* rows that are in order of time, merged; those on the left first *)
RECURSIVE Merge(_, _)
Merge(a, b) ==
  IF a = << >> THEN b ELSE IF b = << >> THEN a
  ELSE IF a[1][1] <= b[1][1] THEN << a[1] >> \o Merge(Tail(a), b) ELSE << b[1] >> \o Merge(a, Tail(b))
Rows(l) == [i \in DOMAIN data[l] |-> << data[l][i], l, i >>]
RECURSIVE MergeAll(_, _)
MergeAll(from, to) ==
  IF from > to THEN << >> ELSE IF from = to THEN Rows(from)
  ELSE LET m == (from + to) \div 2 IN Merge(MergeAll(from, m), MergeAll(m + 1, to))

Finish(w) ==
  /\ w \in 1..workers \ Through
  /\ order' = Append(order, w)
  /\ brought' = [brought EXCEPT ![w] = MergeAll(First(w), Last(w))]
  /\ UNCHANGED << data, workers, table >>

RECURSIVE Together(_, _)
Together(from, to) ==
  IF from = to THEN brought[from]
  ELSE LET m == (from + to) \div 2 IN Merge(Together(from, m), Together(m + 1, to))
Collect ==
  /\ Len(order) = workers /\ table = << >>
  /\ table' = << Together(1, workers) >>
  /\ UNCHANGED << data, workers, brought, order >>

----------------------------------------------------------------------------
EveryLocationOnce ==
  /\ UNION { Share(w) : w \in 1..workers } = Locs
  /\ \A v, w \in 1..workers : v # w => Share(v) \cap Share(w) = {}
EvenShares == \A v, w \in 1..workers : Cardinality(Share(v)) - Cardinality(Share(w)) \in {-1, 0, 1}
(* The same as a single worker brings *)
AsWithOne == table # << >> => table[1] = MergeAll(1, N)
InOrder == table # << >> =>
  \A i, j \in DOMAIN table[1] : i < j =>
    LET a == table[1][i]
        b == table[1][j] IN
    \/ a[1] < b[1]
    \/ a[1] = b[1] /\ a[2] < b[2]
    \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
EveryRow == table # << >> =>
  /\ Range(table[1]) = UNION { Range(Rows(l)) : l \in Locs }
  /\ Len(table[1]) = SumSeq([l \in Locs |-> Len(data[l])])
=============================================================================

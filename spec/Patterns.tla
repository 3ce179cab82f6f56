------------------------------ MODULE Patterns ------------------------------
(* Recurring patterns in the costs of the calls of one process: the calls   *)
(* between the first enter and the last leave of a loop are gathered into a *)
(* series; a window slides over it and is compared with the windows before; *)
(* the most similar pair gives the first pattern, and windows that are most *)
(* similar to it and do not overlap with what is listed follow.             *)
(*                                                                          *)
(* Windows are compared by the correlation of their values, kept exactly as *)
(* << sign, n, d >> for sign * sqrt(n / d).                                 *)
EXTENDS CallStack

VARIABLES
  ask,     \* what is asked for: a record
  gat,     \* last row gathered
  series,  \* rows of the calls gathered
  stat,    \* window -> << sum, variance >> of its values, times its width and its square
  prof,    \* window -> correlation with the most similar window apart from it
  list     \* windows listed as patterns

pavars == << ask, gat, series, stat, prof, list >>

(* ask.start, ask.process, ask.proc (of locations), ask.col, ask.exclusive, ask.window (0 none), ask.count (0 none) *)
AtProc(i) == ask.proc[LocOf(i)] = ask.process
CostOf(i) == IF ask.exclusive THEN exc[ask.col][i] ELSE inc[ask.col][i]
StartEnters == { i \in Rows : IsEnter(i) /\ NameOf(i) = ask.start /\ AtProc(i) }
StartLeaves == { i \in Rows : IsLeave(i) /\ NameOf(i) = ask.start /\ AtProc(i) }
FromRow == SetMin(StartEnters)
ToRow   == SetMax(StartLeaves)

Count == IF ask.count = 0 THEN Cardinality(StartEnters) ELSE ask.count
Width == IF ask.window = 0 THEN Len(series) \div Count ELSE ask.window
NWin  == Len(series) - Width + 1
Apart == (Width + 3) \div 4                  \* a quarter of the window, rounded up
Near2(j, k) == AbsV(j - k) <= Apart

X(k) == CostOf(series[k])[1]
Sum1(k) == SumSeq([x \in 1..Width |-> X(k + x - 1)])
Sum2(j, k) == SumSeq([x \in 1..Width |-> X(j + x - 1) * X(k + x - 1)])
Stat(k) == LET s == Sum1(k) IN << s, Width * Sum2(k, k) - s * s >>
Cov(st, j, k) == Width * Sum2(j, k) - st[j][1] * st[k][1]

(* windows that do not vary are equal to each other and half way to any other *)
CorrBy(st, j, k) ==
  LET a == st[j][2] b == st[k][2] c == Cov(st, j, k) IN
  IF a = 0 /\ b = 0 THEN << 1, 1, 1 >>
  ELSE IF a = 0 \/ b = 0 THEN << 1, 1, 4 >>
  ELSE IF c = 0 THEN << 0, 0, 1 >>
  ELSE << IF c > 0 THEN 1 ELSE -1, c * c, a * b >>
Corr(j, k) == CorrBy(stat, j, k)
LeqC(r, s) ==
  IF r[1] # s[1] THEN r[1] < s[1]
  ELSE IF r[1] >= 0 THEN r[2] * s[3] <= s[2] * r[3] ELSE s[2] * r[3] <= r[2] * s[3]
None == << -2, 0, 1 >>      \* below any correlation
MaxC(r, s) == IF LeqC(r, s) THEN s ELSE r

BeginPatterns(a) ==
  /\ ask' = a
  /\ gat' = 0 /\ series' = << >> /\ stat' = << >> /\ prof' = << >> /\ list' = << >>

Gathering == phase = "done" /\ gat < N
Gather ==
  /\ Gathering
  /\ gat' = gat + 1
  /\ series' = IF /\ FromRow < gat + 1 /\ gat + 1 < ToRow /\ AtProc(gat + 1)
                  /\ CostOf(gat + 1) # Missing
               THEN Append(series, gat + 1) ELSE series
  /\ UNCHANGED << ask, stat, prof, list >>

Sliding == phase = "done" /\ gat = N /\ Len(prof) < NWin
Slide ==     \* the next window is compared with all before it
  LET k == Len(prof) + 1
      st == Append(stat, Stat(k))
      C == [j \in 1..(k - 1) |-> IF Near2(j, k) THEN None ELSE CorrBy(st, j, k)]
      RECURSIVE Best(_, _)
      Best(j, b) == IF j = k THEN b ELSE Best(j + 1, MaxC(b, C[j]))
  IN
  /\ Sliding
  /\ stat' = st
  /\ prof' = Append([j \in 1..(k - 1) |-> MaxC(prof[j], C[j])], Best(1, None))
  /\ UNCHANGED << ask, gat, series, list >>

Profiled == phase = "done" /\ gat = N /\ Len(prof) >= NWin

(* the first pattern *)
MayBeFirst(k) == k \in 1..NWin /\ prof[k] # None /\ \A j \in 1..NWin : LeqC(prof[j], prof[k])

(* Distances in hundredths, to within a few of them *)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) ==    \* lo^2 <= n < hi^2
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == Root(n, 0, 46340)
RootOf(n, d) ==     \* sqrt(n / d) in ten thousandths, n <= d <= 46340
  LET s == IF d <= 20 THEN 10000 ELSE IF d <= 2000 THEN 1000 ELSE 100 IN
  (ISqrt(n * s * s) * 10000) \div ISqrt(d * s * s)
Distance(r) == ISqrt(2 * Width * (10000 - r[1] * Min2(10000, RootOf(r[2], r[3]))))

(* two standard deviations below the mean distance, in hundredths *)
Limit(first) ==
  LET D == [k \in 1..NWin |-> IF k = first THEN 0 ELSE Distance(Corr(first, k))]
      mean == SumSeq(D) \div NWin
      var == SumSeq([k \in 1..NWin |-> (D[k] - mean) * (D[k] - mean)]) \div NWin
  IN Max2(0, mean - 2 * ISqrt(var))
Margin == 25
ClearlyNear(first, k, limit) == Distance(Corr(first, k)) + Margin < limit
ClearlyFar(first, k, limit)  == Distance(Corr(first, k)) > limit + Margin

Free(ws, k) == \A x \in DOMAIN ws : ~Near2(ws[x], k)
NextBest(ws) ==     \* the windows of which one comes next
  LET F == { k \in 1..NWin : Free(ws, k) }
      C == [k \in F |-> Corr(ws[1], k)]
  IN { k \in F : \A j \in F : LeqC(C[j], C[k]) }
MayFollow(ws, k, limit) == Len(ws) < Count /\ k \in NextBest(ws) /\ ~ClearlyFar(ws[1], k, limit)
MayEnd(ws, limit) ==
  \/ Len(ws) >= Count
  \/ LET B == NextBest(ws) IN B = {} \/ \E k \in B : ~ClearlyNear(ws[1], k, limit)
MayBeNothing ==      \* a pattern that does not occur again is not listed
  \/ Count < 2
  \/ \A k \in 1..NWin : ~MayBeFirst(k)
  \/ \E k \in 1..NWin : MayBeFirst(k) /\ MayEnd(<< k >>, Limit(k))

PickFirst == Profiled /\ list = << >> /\ (\E k \in 1..NWin : MayBeFirst(k) /\ list' = << k >>) /\ UNCHANGED << ask, gat, series, stat, prof >>
PickNext == Profiled /\ list # << >>
            /\ LET limit == Limit(list[1]) IN \E k \in 1..NWin : MayFollow(list, k, limit) /\ list' = Append(list, k)
            /\ UNCHANGED << ask, gat, series, stat, prof >>

(* what is shown of window k: all rows at the times of its calls *)
Shown(k) == LET T == { TimeOf(series[x]) : x \in k..(k + Width - 1) } IN { i \in Rows : TimeOf(i) \in T }

----------------------------------------------------------------------------
(* Said without cursors *)
SeriesRight ==
  phase = "done" /\ gat = N =>
    /\ Range(series) = { i \in Rows : FromRow < i /\ i < ToRow /\ AtProc(i) /\ CostOf(i) # Missing }
    /\ \A a, b \in DOMAIN series : a < b => series[a] < series[b]

MostSimilar ==   \* no pair of windows apart is more similar than the first pattern and the window closest to it
  Profiled /\ list # << >> =>
    \E m \in 1..NWin : /\ ~Near2(list[1], m)
                       /\ \A j, k \in 1..NWin : ~Near2(j, k) => LeqC(Corr(j, k), Corr(list[1], m))

ApartAndInOrder ==
  /\ \A a, b \in DOMAIN list : a < b => ~Near2(list[a], list[b])
  /\ \A a, b \in 2..Len(list) : a < b => LeqC(Corr(list[1], list[b]), Corr(list[1], list[a]))
  /\ Len(list) <= Max2(1, Count)

(* a loop whose rounds are all alike, and vary: the first pattern occurs again exactly *)
Alike(p) == \A k \in 1..(Len(series) - p) : X(k) = X(k + p)
PeriodicFound ==
  Profiled /\ list # << >> /\ Width > Apart /\ Len(series) >= 2 * Width /\ Alike(Width) => prof[list[1]][2] = prof[list[1]][3]
=============================================================================

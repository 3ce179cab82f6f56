-------------------------------- MODULE Val --------------------------------
(* Values a table cell can hold, as the projection of the real tables sends *)
(* them: <<>> is a missing value, <<n>> an integer multiple of the trace's  *)
(* unit, <<n, d>> a proper fraction of it in lowest terms.  A real value    *)
(* that is none of these is sent as a triple, which equals no Val.          *)
EXTENDS Integers, Sequences, FiniteSets

Missing == << >>
Num(n)  == << n >>
IsNum(v) == Len(v) = 1

Plus(v, w)  == IF v = Missing \/ w = Missing THEN Missing ELSE Num(v[1] + w[1])
Minus(v, w) == IF v = Missing \/ w = Missing THEN Missing ELSE Num(v[1] - w[1])
OrZero(v)   == IF v = Missing THEN 0 ELSE v[1]

AbsV(n) == IF n < 0 THEN -n ELSE n

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN AbsV(a) ELSE Gcd(b, a % b)

(* n/d as a Val, for d > 0 *)
Ratio(n, d) ==
  LET g == Gcd(AbsV(n), d) IN
  IF n = 0 THEN Num(0)
  ELSE IF d \div g = 1 THEN Num(IF n < 0 THEN -(AbsV(n) \div g) ELSE n \div g)
  ELSE << IF n < 0 THEN -(AbsV(n) \div g) ELSE n \div g, d \div g >>

NumOf(v) == v[1]
DenOf(v) == IF Len(v) = 2 THEN v[2] ELSE 1
IsRat(v) == Len(v) \in {1, 2}
RatLE(v, w) == NumOf(v) * DenOf(w) <= NumOf(w) * DenOf(v)

SumSet(f, S) ==        \* sum of f[x] over the finite set S
  LET RECURSIVE Go(_)
      Go(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN f[x] + Go(X \ {x})
  IN Go(S)

SumSeq(s) ==
  LET RECURSIVE Go(_, _)
      Go(i, acc) == IF i > Len(s) THEN acc ELSE Go(i + 1, acc + s[i])
  IN Go(1, 0)

Range(s) == { s[i] : i \in DOMAIN s }
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
=============================================================================

------------------------------ MODULE Conf_Comm ------------------------------
(* Conformance of the communication analyses.                                *)
EXTENDS Comm, Json, IOUtils
CONSTANT Prop

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE c
vars == << c, cmvars >>
Obs == Cases[c].obs
P == 0..(Cases[c].procs - 1)

Init ==
  /\ c \in 1..Len(Cases)
  /\ tr = Cases[c].rows /\ flying = << >> /\ phase = "record" /\ pos = 0
  /\ cnt = << >> /\ siz = << >> /\ asks = << >> /\ hist = << >>

F(name, ok) == IF ok THEN {} ELSE {name}

Matrix(m, f) == m = [s \in 1..Cases[c].procs |-> [r \in 1..Cases[c].procs |-> Num(Cell(f, s - 1, r - 1))]]
Totals(m, f) == m = [p \in 1..Cases[c].procs |-> << Num(p - 1), Num(SentBy(f, p - 1, P)), Num(ReceivedBy(f, p - 1, P)) >>]

Flat(a) == a.nb > 0 /\ Extent(a)[1] = Extent(a)[2]
EdgesRight(a, e) ==
  IF a.nb > 0
  THEN LET lo == Extent(a)[1]
           w == Extent(a)[2] - lo
       IN e = [b \in 1..(a.nb + 1) |-> Ratio(a.nb * lo + (b - 1) * w, a.nb)]
  ELSE e = [b \in DOMAIN a.edges |-> Num(a.edges[b])]

Total(h) == SumSeq([b \in DOMAIN h |-> IF Len(h[b]) = 1 THEN h[b][1] ELSE -99999])

Fails ==
  F("recorded-rows-kept", Obs.kept) \cup
  (IF Prop = "C11" THEN
     F("matrix-count", Matrix(Obs.count, cnt)) \cup
     F("matrix-size", Matrix(Obs.size, siz)) \cup
     F("totals-count", Totals(Obs.bycount, cnt)) \cup
     F("totals-size", Totals(Obs.bysize, siz))
   ELSE
     (* a range of length zero has no equal intervals: only the total is judged *)
     F("counts", \A k \in DOMAIN asks : IF Flat(asks[k]) THEN Total(Obs.got[k].hist) = SumSeq(hist[k])
                                        ELSE Obs.got[k].hist = [b \in DOMAIN hist[k] |-> Num(hist[k][b])]) \cup
     F("edges", \A k \in DOMAIN asks : Flat(asks[k]) \/ EdgesRight(asks[k], Obs.got[k].edges)))

Step == (StartCount(Cases[c].asks) \/ Count(pos + 1)) /\ UNCHANGED c
Judge ==
  /\ Counted
  /\ PrintT("V " \o ToString(c) \o " " \o ToJson(Fails))
  /\ phase' = "judged"
  /\ UNCHANGED << c, tr, flying, pos, cnt, siz, asks, hist >>
Spec == Init /\ [][Step \/ Judge]_vars
=============================================================================

---------------------------- MODULE Projections ----------------------------
(* Logs of processors, with records << kind, time, x, detail, end >>: x is  *)
(* the number of an entry method, user event or user statistic, end the end *)
(* of a bracketed note.  The kinds have the numbers they have in the logs.  *)
(* Records are read one by one, and their rows put into one table in order  *)
(* of time, behind all rows that are not later; the logs are read in any    *)
(* interleaving.                                                            *)
EXTENDS Val

VARIABLES
  logs,   \* records of each processor
  pos,    \* records read
  open,   \* the last row of a log that is not its end yet: its time, or nothing
  done,   \* processors whose log is complete
  table   \* rows << time, type, name class, number, detail, processor >>

prjvars == << logs, pos, open, done, table >>
Pes == DOMAIN logs
NoTime == -1

Begins == {2, 6, 8, 11, 14, 16, 18, 98}
Ends == {3, 7, 9, 12, 15, 17, 19, 99}
Instants == {1, 4, 5, 10, 13, 21, 26, 27, 28, 32, 100}
Bracket == 29
Known == Begins \cup Ends \cup Instants \cup {Bracket}
Plain == {6, 7, 11, 12, 3}     \* without details

Name(k, x) ==
  CASE k \in {1, 2, 3, 21} -> << 1, x >>        \* entry method
    [] k \in {13, 100} -> << 2, x >>            \* user event
    [] k = 32 -> << 3, x >>                     \* user statistic
    [] k \in {7, 9, 12, 15, 17, 19, 99} -> << k - 1, 0 >>   \* ends are named as their begins
    [] OTHER -> << k, 0 >>
TimeOf(r) == IF r[1] = 26 THEN NoTime ELSE r[2]   \* the one record without a time
Row(pe, t, type, r) == << t, type, Name(r[1], r[3])[1], Name(r[1], r[3])[2], IF r[1] \in Plain THEN 0 ELSE r[4], pe >>
RowsOf(pe, r) ==
  CASE r[1] \in Begins -> << Row(pe, TimeOf(r), 0, r) >>
    [] r[1] \in Ends -> << Row(pe, TimeOf(r), 1, r) >>
    [] r[1] \in Instants -> << Row(pe, TimeOf(r), 2, r) >>
    [] r[1] = Bracket -> << Row(pe, r[2], 0, r), Row(pe, r[5], 1, r) >>
    [] OTHER -> << >>

Place(tab, row) == LET k == Cardinality({ i \in DOMAIN tab : tab[i][1] <= row[1] }) IN
                   SubSeq(tab, 1, k) \o << row >> \o SubSeq(tab, k + 1, Len(tab))
PlaceAll(tab, rows) == CASE Len(rows) = 0 -> tab
                         [] Len(rows) = 1 -> Place(tab, rows[1])
                         [] OTHER -> Place(Place(tab, rows[1]), rows[2])

Begin(l) ==
  /\ logs = l
  /\ pos = [p \in DOMAIN l |-> 0]
  /\ open = [p \in DOMAIN l |-> << >>]
  /\ done = {}
  /\ table = << >>

ReadRecord(p) ==
  /\ pos[p] < Len(logs[p])
  /\ pos' = [pos EXCEPT ![p] = @ + 1]
  /\ LET r == logs[p][pos[p] + 1]
         rows == RowsOf(p, r) IN
     /\ table' = PlaceAll(table, rows)
     /\ open' = [open EXCEPT ![p] = IF rows = << >> THEN @
                                    ELSE IF r[1] = 7 THEN << >>
                                    ELSE << rows[Len(rows)][1] >>]
  /\ UNCHANGED << logs, done >>

(* What is missing is the end of the computation. *)
CloseLog(p) ==
  /\ p \notin done /\ pos[p] = Len(logs[p])
  /\ done' = done \cup {p}
  /\ table' = IF open[p] = << >> THEN table ELSE Place(table, << open[p][1], 1, 6, 0, 0, p >>)
  /\ UNCHANGED << logs, pos, open >>

AllClosed == done = Pes

----------------------------------------------------------------------------
Of(p) == SelectSeq(table, LAMBDA r : r[6] = p)
InOrder == \A i, j \in DOMAIN table : i < j => table[i][1] <= table[j][1]
KnownRead(p) == { i \in 1..pos[p] : logs[p][i][1] \in Known }
Extra(p) == Cardinality({ i \in 1..pos[p] : logs[p][i][1] = Bracket })
LastKnown(p) == CHOOSE i \in KnownRead(p) : \A j \in KnownRead(p) : j <= i
NeedsEnd(p) == KnownRead(p) # {} /\ logs[p][LastKnown(p)][1] # 7
OneRowPerRecord == \A p \in Pes :
  Len(Of(p)) = Cardinality(KnownRead(p)) + Extra(p) + (IF p \in done /\ NeedsEnd(p) THEN 1 ELSE 0)
(* Every log with rows ends with the end of the computation: as its last     *)
(* record, or with the time of it.                                           *)
EndsWithLeave == \A p \in done :
  Of(p) # << >> => \E i \in DOMAIN Of(p) :
    /\ Of(p)[i][2] = 1 /\ Of(p)[i][3] = 6
    /\ LET r == logs[p][LastKnown(p)] IN Of(p)[i][1] = (IF r[1] = Bracket THEN r[5] ELSE TimeOf(r))
(* Records of a log with equal times keep their order. *)
LogOrder == \A p \in Pes : \A i \in KnownRead(p), j \in KnownRead(p) :
  i < j /\ logs[p][i][1] # Bracket /\ logs[p][j][1] # Bracket /\ TimeOf(logs[p][i]) <= TimeOf(logs[p][j]) =>
    \E x, y \in DOMAIN Of(p) : x < y /\ Of(p)[x] = RowsOf(p, logs[p][i])[1] /\ Of(p)[y] = RowsOf(p, logs[p][j])[1]
(* The beginnings and ends there are have been recorded. *)
Recorded == \A k \in DOMAIN table : \E i \in 1..pos[table[k][6]] :
  \/ \E m \in DOMAIN RowsOf(table[k][6], logs[table[k][6]][i]) : RowsOf(table[k][6], logs[table[k][6]][i])[m] = table[k]
  \/ table[k][3] = 6 /\ table[k][2] = 1
=============================================================================

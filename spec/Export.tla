------------------------------- MODULE Export -------------------------------
(* The Chrome Tracing writer: rows << type, name, time, process, thread,    *)
(* attributes >> become records, one by one, in a growing document.         *)
EXTENDS Val

NoThread == -1         \* the thread of rows of a trace without threads

VARIABLES
  tr,     \* rows; types: 0 enter, 1 leave, 2 instant, others as they are
  per,    \* units of time per microsecond
  pos,    \* rows written
  doc,    \* records << phase, name, microseconds, process, thread, attributes >>
  closed  \* the document is complete

exvars == << tr, per, pos, doc, closed >>

Rows == 1..Len(tr)
Begin(rows, p) == tr = rows /\ per = p /\ pos = 0 /\ doc = << >> /\ closed = FALSE

(* the phase of a record has the number of its type: 0 begin, 1 end, 2 instant *)
Phase(t) == t

(* rounded down also below zero *)
Floor(n, d) == IF n >= 0 THEN n \div d ELSE -(((d - 1) - n) \div d)

Write ==
  /\ ~closed /\ pos < Len(tr)
  /\ pos' = pos + 1
  /\ LET r == tr[pos + 1] IN
     doc' = Append(doc, << Phase(r[1]), r[2], Floor(r[3], per), r[4], r[5], r[6] >>)
  /\ UNCHANGED << tr, per, closed >>

Close == ~closed /\ pos = Len(tr) /\ closed' = TRUE /\ UNCHANGED << tr, per, pos, doc >>

----------------------------------------------------------------------------
OneRecordPerEvent == closed => Len(doc) = Len(tr)
Faithful == \A i \in DOMAIN doc :
  /\ doc[i][2] = tr[i][2] /\ doc[i][4] = tr[i][4] /\ doc[i][5] = tr[i][5] /\ doc[i][6] = tr[i][6]
  /\ doc[i][3] * per <= tr[i][3] /\ tr[i][3] < (doc[i][3] + 1) * per
OrderKept == \A i, j \in DOMAIN doc : i < j /\ tr[i][3] <= tr[j][3] => doc[i][3] <= doc[j][3]
Balance == closed => Cardinality({ i \in DOMAIN doc : doc[i][1] = 0 }) = Cardinality({ i \in Rows : tr[i][1] = 0 })
Grows == [][ Len(doc') >= Len(doc) /\ \A i \in DOMAIN doc : doc'[i] = doc[i] ]_exvars
=============================================================================

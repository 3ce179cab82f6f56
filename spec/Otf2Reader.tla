----------------------------- MODULE Otf2Reader -----------------------------
(* An OTF2 archive: each location has a number and a process, may or may    *)
(* not be a CPU thread, and has recorded << time, kind, what, detail,       *)
(* values >> in order of time.  Locations are listed in any order.  Kinds: 0 enter and 1 leave of region `what`, 2 another event   *)
(* of the kind `what`, 3 a reading of metrics, with << metric, value >>     *)
(* pairs.  Locations are read record by record, in any interleaving that    *)
(* keeps the order of time among events; readings wait at their location    *)
(* for the event they were taken for.                                       *)
EXTENDS Val, FiniteSetsExt

VARIABLES
  arch,    \* [num, proc, cpu, recs] for each location
  pos,     \* records read, for each location
  pend,    \* for each location << time, readings >>, a set of pairs
  table    \* rows << time, kind, what, detail, location, readings >>

otfvars == << arch, pos, pend, table >>

Locs == DOMAIN arch
Recs(l) == arch[l].recs
Cpu(l) == arch[l].cpu
Nothing == << -1, {} >>

Begin(a) ==
  /\ arch = a
  /\ pos = [l \in DOMAIN a |-> 0]
  /\ pend = [l \in DOMAIN a |-> Nothing]
  /\ table = << >>

(* The number of a thread in its process *)
Thread(l) == arch[l].num - Min({ arch[k].num : k \in { k \in Locs : Cpu(k) /\ arch[k].proc = arch[l].proc } })

HasNext(l) == pos[l] < Len(Recs(l))
Next1(l) == Recs(l)[pos[l] + 1]
IsReading(r) == r[2] = 3
RECURSIVE NextEventAt(_, _)
NextEventAt(l, i) == IF i > Len(Recs(l)) \/ ~IsReading(Recs(l)[i]) THEN i ELSE NextEventAt(l, i + 1)
(* the time of the next event of a location *)
EventTime(l) == Recs(l)[NextEventAt(l, pos[l] + 1)][1]
EventLeft(l) == NextEventAt(l, pos[l] + 1) <= Len(Recs(l))

Override(old, new) == { p \in old : \A k \in DOMAIN new : new[k][1] # p[1] } \cup
                      { new[k] : k \in { k \in DOMAIN new : \A j \in DOMAIN new : j > k => new[j][1] # new[k][1] } }

(* A reading makes no row. *)
TakeReading(l) ==
  /\ Cpu(l) /\ HasNext(l) /\ IsReading(Next1(l))
  /\ pos' = [pos EXCEPT ![l] = @ + 1]
  /\ LET r == Next1(l)
         kept == IF pend[l][1] = r[1] THEN pend[l][2] ELSE {} IN
     pend' = [pend EXCEPT ![l] = << r[1], Override(kept, r[5]) >>]
  /\ UNCHANGED << arch, table >>

TakeEvent(l) ==
  /\ Cpu(l) /\ HasNext(l) /\ ~IsReading(Next1(l))
  /\ \A k \in Locs : Cpu(k) /\ EventLeft(k) => Next1(l)[1] <= EventTime(k)
  /\ pos' = [pos EXCEPT ![l] = @ + 1]
  /\ LET r == Next1(l)
         vals == IF pend[l][1] = r[1] THEN pend[l][2] ELSE {} IN
     table' = Append(table, << r[1], r[2], r[3], IF r[2] = 1 THEN 0 ELSE r[4], l, vals >>)
  /\ pend' = [pend EXCEPT ![l] = Nothing]
  /\ UNCHANGED arch

(* Other locations (devices) are left out. *)
Skip(l) == ~Cpu(l) /\ HasNext(l) /\ pos' = [pos EXCEPT ![l] = @ + 1] /\ UNCHANGED << arch, pend, table >>

AllRead == \A l \in Locs : ~HasNext(l)

----------------------------------------------------------------------------
RowsOf(l) == SelectSeq(table, LAMBDA r : r[5] = l)
Upto(l, n) == SubSeq(Recs(l), 1, n)
Events(l) == LET E == { i \in 1..pos[l] : ~IsReading(Recs(l)[i]) } IN
             SelectSeq([i \in 1..pos[l] |-> i], LAMBDA i : i \in E)

(* Every event has its row, in the order of its location. *)
EveryEventOnce == \A l \in Locs :
  IF ~Cpu(l) THEN RowsOf(l) = << >>
  ELSE /\ Len(RowsOf(l)) = Len(Events(l))
       /\ \A k \in DOMAIN RowsOf(l) :
            LET r == Recs(l)[Events(l)[k]] IN
            /\ RowsOf(l)[k][1] = r[1] /\ RowsOf(l)[k][2] = r[2] /\ RowsOf(l)[k][3] = r[3]
InOrderOfTime == \A i, j \in DOMAIN table : i < j => table[i][1] <= table[j][1]

(* The readings of a row are those directly before it, at its time, the last *)
(* of each metric.                                                           *)
DirectlyBefore(l, i) == { j \in 1..(i - 1) : Recs(l)[j][1] = Recs(l)[i][1] /\ \A h \in j..(i - 1) : IsReading(Recs(l)[h]) }
Taken(l, i, m) == { << j, x >> \in (DirectlyBefore(l, i) \X (1..3)) : x <= Len(Recs(l)[j][5]) /\ Recs(l)[j][5][x][1] = m }
Later(p, q) == q[1] > p[1] \/ (q[1] = p[1] /\ q[2] > p[2])
ReadingsStay == \A l \in Locs : Cpu(l) =>
  \A k \in DOMAIN RowsOf(l) :
    LET i == Events(l)[k] IN
    \A m \in 1..3 :
      LET V == { p[2] : p \in { p \in RowsOf(l)[k][6] : p[1] = m } }
          T == Taken(l, i, m) IN
      IF T = {} THEN V = {}
      ELSE V = { Recs(l)[p[1]][5][p[2]][2] : p \in { p \in T : \A q \in T : ~Later(p, q) } }
(* Threads of a process have different numbers, one of them 0. *)
ThreadsNumbered == \A l \in Locs : Cpu(l) =>
  /\ Thread(l) >= 0
  /\ \E k \in Locs : Cpu(k) /\ arch[k].proc = arch[l].proc /\ Thread(k) = 0
  /\ \A k \in Locs : Cpu(k) /\ arch[k].proc = arch[l].proc /\ k # l => Thread(k) # Thread(l)
RowsStay == [][ Len(table') >= Len(table) /\ \A i \in DOMAIN table : table'[i] = table[i] ]_otfvars
=============================================================================

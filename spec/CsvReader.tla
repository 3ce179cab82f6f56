----------------------------- MODULE CsvReader -----------------------------
(* Lines of a file, each with a time, are read one by one into a table kept *)
(* in order of time; a line goes behind all lines with equal times.         *)
EXTENDS Val

VARIABLES
  file,   \* times of the lines
  pos,    \* lines read
  table   \* lines, by number, in the order of the table

csvvars == << file, pos, table >>
Begin(f) == file = f /\ pos = 0 /\ table = << >>

Place(t) == \* where a line with time t goes: behind all that are not later
  Cardinality({ k \in DOMAIN table : file[table[k]] <= t })
Read ==
  /\ pos < Len(file) /\ pos' = pos + 1
  /\ LET k == Place(file[pos + 1]) IN
     table' = SubSeq(table, 1, k) \o << pos + 1 >> \o SubSeq(table, k + 1, Len(table))
  /\ UNCHANGED file
AllRead == pos = Len(file)

----------------------------------------------------------------------------
EveryLineOnce == Range(table) = 1..pos /\ Len(table) = pos
InOrder == \A i, j \in DOMAIN table : i < j =>
  \/ file[table[i]] < file[table[j]]
  \/ file[table[i]] = file[table[j]] /\ table[i] < table[j]
=============================================================================

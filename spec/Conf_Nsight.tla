---------------------------- MODULE Conf_Nsight ----------------------------
(* The rows that were read are taken one by one, if they may come next.      *)
EXTENDS Nsight, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, bad, judged, lam    \* lam: whether the ranges are laminar
vars == << c, pos, bad, judged, lam, nsvars >>
Obs == Cases[c].obs
Got == Obs.rows        \* << time, type, range, process, thread >>; no thread is -1
Init == c \in 1..Len(Cases) /\ pos = 1 /\ bad = {} /\ judged = FALSE /\ Begin(Cases[c].ranges) /\ lam = Laminar
F(name, ok) == IF ok THEN {} ELSE {name}
Row == Got[pos]
More == pos <= Len(Got) /\ "stuck" \notin bad
May == IF ~lam \/ Row[3] \notin Ids THEN FALSE
       ELSE IF Row[2] = 0 THEN EnterOk(Row[3]) /\ Start(Row[3]) = Next0 /\ Row[1] = Next0
       ELSE IF Row[2] = 1 THEN LeaveOk(Row[3]) /\ End(Row[3]) = Next0 /\ Row[1] = Next0
       ELSE FALSE
Take == /\ More /\ lam /\ May
        /\ (IF Row[2] = 0 THEN EnterRange(Row[3]) ELSE LeaveRange(Row[3]))
        /\ pos' = pos + 1 /\ UNCHANGED << c, lam, bad, judged >>
Stuck == /\ More /\ lam /\ ~May
         /\ bad' = bad \cup {"stuck"} /\ UNCHANGED << c, lam, pos, judged, nsvars >>
(* Ranges of a thread that are neither apart nor within each other: only rows. *)
Plain == /\ ~lam /\ ~judged /\ bad = {}
         /\ pos' = Len(Got) + 1 /\ bad' = {"overlapping"}
         /\ UNCHANGED << c, lam, judged, nsvars >>
Pids == { ranges[r][1] : r \in Ids }
ProcOf(p) == { Got[k][4] : k \in { k \in DOMAIN Got : ranges[Got[k][3]][1] = p } }
ThreadOf(l) == { Got[k][5] : k \in { k \in DOMAIN Got : Loc(Got[k][3]) = l } }
Numbers(S) == 0..(Cardinality(S) - 1)
Threads(p) == { l \in Locs : l[1] = p }
Known == \A k \in DOMAIN Got : Got[k][3] \in Ids
Fails ==
  F("columns", Obs.columns) \cup
  F("attributes", Obs.attributes) \cup
  F("rows", Known /\ Len(Got) = 2 * Len(ranges) /\
            \A r \in Ids : Cardinality({ k \in DOMAIN Got : SubSeq(Got[k], 1, 3) = << Start(r), 0, r >> }) = 1
                        /\ Cardinality({ k \in DOMAIN Got : SubSeq(Got[k], 1, 3) = << End(r), 1, r >> }) = 1) \cup
  F("order", \A k \in 1..(Len(Got) - 1) : Got[k][1] <= Got[k + 1][1]) \cup
  F("nesting", lam => Complete) \cup
  F("parents", lam /\ Complete => Obs.parents = parent) \cup
  (IF ~Known THEN {} ELSE
     F("processes", /\ \A p \in Pids : Cardinality(ProcOf(p)) = 1
                    /\ UNION { ProcOf(p) : p \in Pids } = Numbers(Pids)) \cup
     F("threads", IF Cases[c].threads
                  THEN \A p \in Pids : /\ \A l \in Threads(p) : Cardinality(ThreadOf(l)) = 1
                                       /\ UNION { ThreadOf(l) : l \in Threads(p) } = Numbers(Threads(p))
                  ELSE \A k \in DOMAIN Got : Got[k][5] = -1))
AtEnd == ~More /\ (IF lam THEN TRUE ELSE bad # {})
Judge == /\ ~judged /\ AtEnd /\ judged' = TRUE
         /\ PrintT("V " \o ToString(c) \o " " \o ToJson(Fails))
         /\ UNCHANGED << c, lam, pos, bad, nsvars >>
Spec == Init /\ [][Take \/ Stuck \/ Plain \/ Judge]_vars
=============================================================================

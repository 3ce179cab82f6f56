---------------------------- MODULE HpctTimeline ----------------------------
(* Trace lines of an HPCToolkit database: each a sequence of samples        *)
(* << time, context >>, context 0 while idle.  Between samples, calls are   *)
(* left and entered one by one until those open are the context sampled.    *)
EXTENDS Val

VARIABLES
  ctxs,    \* << parent, kind >> of each context
  lines,   \* samples of each trace line
  finish,  \* time the database ends
  pos,     \* samples reached
  open,    \* line -> nodes open, from the root down
  rows,    \* line -> << time, type, context >>, type 0 enter, 1 leave, 2 and 3 for loops
  done

htvars == << ctxs, lines, finish, pos, open, rows, done >>
Loop == 1
Inner == {2, 3}           \* lines and instructions

RECURSIVE Path(_)         \* calls of a context, from the root down
Path(k) == IF k = 0 THEN << >>
           ELSE IF ctxs[k][2] \in Inner THEN Path(ctxs[k][1])
           ELSE Append(Path(ctxs[k][1]), k)
Target(l) == IF pos[l] = Len(lines[l]) THEN << >> ELSE Path(lines[l][pos[l] + 1][2])
When(l) == IF pos[l] = Len(lines[l]) THEN finish ELSE lines[l][pos[l] + 1][1]
Prefix(s, t) == Len(s) <= Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]
Type(k, leave) == IF ctxs[k][2] = Loop THEN 2 + leave ELSE leave

Begin(cs, ls, f) ==
  /\ ctxs = cs /\ lines = ls /\ finish = f
  /\ pos = [l \in DOMAIN ls |-> 0]
  /\ open = [l \in DOMAIN ls |-> << >>]
  /\ rows = [l \in DOMAIN ls |-> << >>]
  /\ done = {}

Leave(l) ==
  /\ l \notin done /\ ~Prefix(open[l], Target(l))
  /\ LET k == open[l][Len(open[l])] IN rows' = [rows EXCEPT ![l] = Append(@, << When(l), Type(k, 1), k >>)]
  /\ open' = [open EXCEPT ![l] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED << ctxs, lines, finish, pos, done >>
Enter(l) ==
  /\ l \notin done /\ Prefix(open[l], Target(l)) /\ Len(open[l]) < Len(Target(l))
  /\ LET k == Target(l)[Len(open[l]) + 1] IN
     /\ rows' = [rows EXCEPT ![l] = Append(@, << When(l), Type(k, 0), k >>)]
     /\ open' = [open EXCEPT ![l] = Append(@, k)]
  /\ UNCHANGED << ctxs, lines, finish, pos, done >>
Reach(l) ==
  /\ l \notin done /\ open[l] = Target(l) /\ pos[l] < Len(lines[l])
  /\ pos' = [pos EXCEPT ![l] = @ + 1]
  /\ UNCHANGED << ctxs, lines, finish, open, rows, done >>
End(l) ==
  /\ l \notin done /\ pos[l] = Len(lines[l]) /\ open[l] = << >>
  /\ done' = done \cup {l}
  /\ UNCHANGED << ctxs, lines, finish, pos, open, rows >>
AllDone == done = DOMAIN lines

----------------------------------------------------------------------------
(* Replaying the rows: every leave is of the last call open *)
RECURSIVE Replay(_, _)
Replay(s, st) == IF s = << >> THEN << "ok", st >>
                 ELSE LET r == Head(s) IN
                      IF r[2] \in {0, 2} THEN Replay(Tail(s), Append(st, r[3]))
                      ELSE IF st = << >> THEN << "bad", st >>
                      ELSE IF st[Len(st)] # r[3] THEN << "bad", st >>
                      ELSE Replay(Tail(s), SubSeq(st, 1, Len(st) - 1))
Nested == \A l \in DOMAIN lines : Replay(rows[l], << >>) = << "ok", open[l] >>
(* What is open between two reached samples is the context sampled. *)
Upto(l, t) == SelectSeq(rows[l], LAMBDA r : r[1] <= t)
LastAt(l, i) == IF i = Len(lines[l]) THEN lines[l][i][1] < finish ELSE lines[l][i][1] < lines[l][i + 1][1]
Followed == \A l \in DOMAIN lines : \A i \in 1..pos[l] :
  LastAt(l, i) => Replay(Upto(l, lines[l][i][1]), << >>)[2] = Path(lines[l][i][2])
(* Nothing is left and entered again, and nothing touched twice: *)
Differ(a, b) == Cardinality((Range(a) \ Range(b)) \cup (Range(b) \ Range(a)))
RECURSIVE Changes(_, _)
Changes(l, i) == IF i = 0 THEN 0
                 ELSE Changes(l, i - 1) + Differ(IF i = 1 THEN << >> ELSE Path(lines[l][i - 1][2]), Path(lines[l][i][2]))
Minimal == \A l \in done :
  Len(rows[l]) = Changes(l, Len(lines[l])) + (IF lines[l] = << >> THEN 0 ELSE Len(Path(lines[l][Len(lines[l])][2])))
Balanced == \A l \in done : Replay(rows[l], << >>) = << "ok", << >> >>
TimesRise == \A l \in DOMAIN lines : \A i \in 1..(Len(rows[l]) - 1) : rows[l][i][1] <= rows[l][i + 1][1]
=============================================================================

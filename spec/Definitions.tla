---------------------------- MODULE Definitions ----------------------------
(* The definitions of an archive and the table of them.  A definition has a *)
(* kind, a number that is its own among the kinds it shares numbers with    *)
(* (-1: kinds whose definitions have none), and fields, which are           *)
(*   << 0, x >>      a plain value                                          *)
(*   << 1, k, n >>   a reference to the definition of kind k with number n  *)
(*   << 2 >>         nothing                                                *)
(*   << 3, s >>      several of these                                       *)
EXTENDS Val

VARIABLES
  defs,    \* definitions recorded, in order: << kind, number, fields >>
  mode,    \* "record", "read", "done"
  left,    \* kinds not yet read
  at,      \* last definition looked at for the kind being read
  table    \* rows

dfvars == << defs, mode, left, at, table >>

KindsOf(ds) == { ds[x][1] : x \in DOMAIN ds }

RECURSIVE RefsIn(_)
RefsIn(f) == IF f[1] = 1 THEN {<< f[2], f[3] >>}
             ELSE IF f[1] = 3 THEN UNION { RefsIn(f[2][x]) : x \in DOMAIN f[2] } ELSE {}
RefsOf(d) == UNION { RefsIn(d[3][x]) : x \in DOMAIN d[3] }
Named(d) == << d[1], d[2] >>
Known == { Named(defs[x]) : x \in { y \in DOMAIN defs : defs[y][2] >= 0 } }

(* a definition may refer to definitions made before *)
Define(d) ==
  /\ mode = "record"
  /\ RefsOf(d) \subseteq Known
  /\ d[2] >= 0 => Named(d) \notin Known
  /\ defs' = Append(defs, d)
  /\ UNCHANGED << mode, left, at, table >>

StartReading ==
  /\ mode = "record"
  /\ mode' = "read" /\ left' = KindsOf(defs) /\ at' = 0
  /\ UNCHANGED << defs, table >>

(* kind k is read, definition by definition *)
Look(k) ==
  /\ mode = "read" /\ k \in left /\ at < Len(defs)
  /\ at' = at + 1
  /\ table' = IF defs[at + 1][1] = k THEN Append(table, defs[at + 1]) ELSE table
  /\ UNCHANGED << defs, mode, left >>
KindDone(k) ==
  /\ mode = "read" /\ k \in left /\ at = Len(defs)
  /\ left' = left \ {k} /\ at' = 0
  /\ UNCHANGED << defs, mode, table >>
AllRead ==
  /\ mode = "read" /\ left = {}
  /\ mode' = "done"
  /\ UNCHANGED << defs, left, at, table >>

----------------------------------------------------------------------------
Occurs(s, x) == Cardinality({ k \in DOMAIN s : s[k] = x })
SameRows(s, t) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Occurs(s, s[k]) = Occurs(t, s[k])

OneRowEach == mode = "done" => SameRows(table, defs)
RowsNamed(t, k, n) == { x \in DOMAIN t : t[x][1] = k /\ t[x][2] = n }
Resolves(t, r) == Cardinality(RowsNamed(t, r[1], r[2])) = 1
RefsResolve == mode = "done" => \A x \in DOMAIN table : \A r \in RefsOf(table[x]) : Resolves(table, r)
=============================================================================

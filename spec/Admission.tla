----------------------------- MODULE Admission -----------------------------
(* Whether a directory is taken for a recording.  A directory of            *)
(* Projections logs has to have one description and a log for each          *)
(* processor that it states; a database of HPCToolkit has three files, each *)
(* saying what it is.  Everything is read, or nothing.                      *)
(*                                                                          *)
(* Entries of a directory: << "sts", e, n >> describes run e with n         *)
(* processors, << "log", e, i >> is the log of its processor i,             *)
(* << "db", f, k >> is file f of a database and says to be of kind k (0     *)
(* nothing sensible), << "junk", x, 0 >> is anything else.                  *)
EXTENDS Val

VARIABLES
  format,   \* "projections" or "hpctoolkit"
  isdir,    \* whether there is a directory at all
  dir,      \* its entries
  looked,   \* entries looked at so far
  found,    \* descriptions found
  checked,  \* logs, or files of a database, that have been checked
  outcome   \* "open", "refused", "read"

advars == << format, isdir, dir, looked, found, checked, outcome >>
Files == 1..3    \* of a database: contexts, profiles, timelines

Begin(f, d, entries) ==
  /\ format = f /\ isdir = d /\ dir = entries
  /\ looked = {} /\ found = {} /\ checked = {} /\ outcome = "open"

Refuse == outcome' = "refused" /\ UNCHANGED << format, isdir, dir, looked, found, checked >>

NoDirectory == outcome = "open" /\ ~isdir /\ Refuse

(* entries are looked at in any order, as a directory lists them *)
Look(x) ==
  /\ outcome = "open" /\ isdir /\ format = "projections" /\ x \in dir \ looked
  /\ looked' = looked \cup {x}
  /\ found' = IF x[1] = "sts" THEN found \cup {x} ELSE found
  /\ outcome' = IF x[1] = "sts" /\ found # {} THEN "refused" ELSE outcome
  /\ UNCHANGED << format, isdir, dir, checked >>

AllLooked == looked = dir
NoneFound == outcome = "open" /\ isdir /\ format = "projections" /\ AllLooked /\ found = {} /\ Refuse

Described == (CHOOSE x \in found : TRUE)
Stated == { << "log", Described[2], i >> : i \in 0..(Described[3] - 1) }
CheckLog(i) ==
  /\ outcome = "open" /\ isdir /\ format = "projections" /\ AllLooked /\ found # {}
  /\ i < Described[3] /\ << "log", Described[2], i >> \notin checked
  /\ IF << "log", Described[2], i >> \in dir
     THEN checked' = checked \cup {<< "log", Described[2], i >>} /\ UNCHANGED outcome
     ELSE outcome' = "refused" /\ UNCHANGED checked
  /\ UNCHANGED << format, isdir, dir, looked, found >>

CheckFile(f) ==
  /\ outcome = "open" /\ isdir /\ format = "hpctoolkit" /\ << "db", f, f >> \notin checked
  /\ IF << "db", f, f >> \in dir
     THEN checked' = checked \cup {<< "db", f, f >>} /\ UNCHANGED outcome
     ELSE outcome' = "refused" /\ UNCHANGED checked
  /\ UNCHANGED << format, isdir, dir, looked, found >>

Accept ==
  /\ outcome = "open" /\ isdir
  /\ IF format = "projections" THEN AllLooked /\ found # {} /\ checked = Stated ELSE checked = { << "db", f, f >> : f \in Files }
  /\ outcome' = "read"
  /\ UNCHANGED << format, isdir, dir, looked, found, checked >>

DoLook == \E x \in dir : Look(x)
DoCheckLog == found # {} /\ \E i \in 0..(Described[3] - 1) : CheckLog(i)
DoCheckFile == \E f \in Files : CheckFile(f)
Run == NoDirectory \/ DoLook \/ NoneFound \/ DoCheckLog \/ DoCheckFile \/ Accept

----------------------------------------------------------------------------
(* Said without looking at entries one by one *)
Descriptions == { x \in dir : x[1] = "sts" }
Fit ==
  /\ isdir
  /\ IF format = "projections"
     THEN /\ Cardinality(Descriptions) = 1
          /\ \A x \in Descriptions : \A i \in 0..(x[3] - 1) : << "log", x[2], i >> \in dir
     ELSE \A f \in Files : << "db", f, f >> \in dir
AsFit == outcome # "open" => (outcome = "read") = Fit
AllOrNothing == outcome = "read" /\ format = "projections" =>
  checked = { x \in dir : x[1] = "log" /\ \E y \in Descriptions : y[2] = x[2] /\ x[3] < y[3] }
=============================================================================

#!/usr/bin/env python3
"""Writes the "fixed" part of /verif/known_findings.json (the open part is kept)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """C17 df8ca2a events with equal timestamps changed places in from_csv (unstable sort)
C18 25ae31e events with equal timestamps changed places in the OTF2 reader (unstable sort)
C20 88269a4 events with equal timestamps changed places in the Projections reader (unstable sort)
C08 cf556ac load_imbalance failed on its flat profile (a DataFrame where a Series was meant)
C09 47924f0 idle_time added to its default list (and to the caller's), so later calls counted other functions as idle
C02 9cfb947 where calls overlap, a leave ended the innermost call instead of its own, and parents of later calls were wrong
C06 0f4d9fe calls whose joined names are equal ("a->b", "c" and "a", "b->c") shared a node of the calling context tree
C07 6041f5d flat_profile failed for a list of columns to group by
C19 d3d2158 OTF2 metric members with ids above 9 were looked up by their last digit
C20 10e01c6 the end of a user event pair was dropped, or became another enter
C20 5e53fa6 user notes had text where other records have numbers, and could not be sorted
C20 8148414 a multicast failed: its details were read before they were known
C20 9c46419 the Computation leave added at the end of a log was at 1000 times its time
C22 5774bef lines above 65535 in HPCToolkit contexts lost their upper bytes
C22 c80b8ca after a name that is not ASCII, all HPCToolkit strings were looked up at the wrong place
C21 360c21d databases without NODE in their identifier tuples could not be read
C22 41c159c databases with a function without a name could not be read
C15 a71695b a log URL that is no string raised another error than ValueError
C23 301fbbd reports of one process had no Process column, and no analysis could run
C23 8fd45a9 ranges that start or end at the same time were interleaved instead of nested
C19 844e37a OTF2 archives with more than one metric class could not be read
C07 a2c2006 functions that are never entered had rows in the flat profile
C14 c61ee2a detect_pattern failed unless another analysis had calculated its metric before
C16 623f1f4 times were rounded through floats in the Chrome export; large ones were off
C17 b5851da functions called "NA" or "1" lost their names in from_csv
C19 e726419 a metric reading was given to the next event of another location
C20 380f150 no Computation leave for logs that end with the beginning of the computation
C20 99da67e records of chares without dimensions were read one number off
C24 c3e3bdd columns of OTF2 metrics had types that depend on the number of processes
C21 28f7c2a databases without RANK in their identifier tuples had no Process column, and no analysis could run
C23 fcc36a5 ranges called "NA" or "null" lost their names
C01 c962604 partner times above 2^53 (epoch nanoseconds) were rounded when any event of the trace has no partner
C18 33814cf threads whose location numbers are 2^32 apart (as Score-P numbers them) were merged
C24 9658fcb the order of simultaneous OTF2 events depended on the number of workers where locations are not listed in order of their numbers
C06 2da193c calling context trees of more than about a thousand nested calls could not be built (RecursionError)
C22 868b843 HPCToolkit context trees deeper than the recursion limit could not be read (RecursionError)"""
p = os.path.join(HERE, "known_findings.json")
d = json.load(open(p))
d["fixed"] = ["fixed: property=%s %s %s" % tuple(l.split(" ", 2)) for l in FIXED.splitlines()]
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")

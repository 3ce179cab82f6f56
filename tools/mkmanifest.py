#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; replay of TLC and random behaviours into the code; TLC conformance of the results"
NOTE = ("The specification's invariants hold in every state within the constants of the design runs; the code is judged on the replayed "
        "recordings (all small ones, seeded random larger ones), each against the state the specification's own actions reach. Trusts TLC, the "
        "projection in harness/, pandas/numpy as installed. ")
CLAIMS = {
    "C01": "", "C02": "", "C03": "", "C04": "", "C05": "", "C06": "", "C07": "", "C08": "", "C09": "", "C10": "", "C11": "", "C12": "", "C13": "",
    "C14": "", "C15": "", "C16": "", "C17": "", "C18": "", "C19": "", "C20": "", "C21": "", "C22": "", "C23": "", "C24": "", "C25": "", "C26": "", "C27": "", "C28": "", "C29": "",
}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CLAIMS and os.path.exists(os.path.join(HERE, "harness", "props", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="./check %s quick" % p, thorough_cmd="./check %s thorough" % p, technique=TECH,
                           level="model_checking", level_note=(NOTE + CLAIMS[p]).strip()))
    else:
        na.append(dict(property=p, reason=NA.get(p, "the check is not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in the code: its API exposes the state the specification speaks of."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])

"""Common to the properties decided with Profile (C07, C08, C09, C13)."""
import random

from .. import gamma
from . import stack

ASSUMPTIONS = stack.ASSUMPTIONS + ["sums are compared exactly: times and metrics are multiples of a power of two or integers, below 2^53"]


def design(tier):
    q = [dict(name="2 locations", consts=dict(MaxRows=4, NLoc=2, NName=2, WithOther=False, Readings=0)),
         dict(name="3 locations", consts=dict(MaxRows=3, NLoc=3, NName=2, WithOther=True, Readings=0))]
    if tier == "thorough":
        q = [dict(name="2 locations", consts=dict(MaxRows=6, NLoc=2, NName=2, WithOther=False, Readings=0)),
             dict(name="3 locations", consts=dict(MaxRows=5, NLoc=3, NName=2, WithOther=False, Readings=0))]
    return [dict(module="MC_Profile", spec="ProfSpec", invariants=["InvProfile", "InvTable"], must=["DoFeed", "DoCloseRun"], workers=8, timeout=3000, **d)
            for d in q]


def group_by(rng, case, kinds=("Name", "list", "Thread", "Group", "two")):
    """How to group: sets case["by"] and the groups of the rows."""
    conc, rows = case["conc"], case["rows"]
    has_thread = conc["locs"][0][1] is not None
    kind = rng.choice([k for k in kinds if k != "Thread" or has_thread])
    case["by"] = {"Name": "Name", "list": ["Name"], "Thread": "Thread", "Group": "Group", "two": ["Name", "Group"]}[kind]
    if kind == "two" and has_thread and rng.random() < 0.5:
        case["by"] = rng.choice([["Name", "Thread"], ["Thread", "Name"]])
    if "Group" in str(case["by"]):
        conc["group"] = [rng.choice(["g", "h", "k"]) for _ in rows]
        conc["group_cat"] = rng.random() < 0.5


def key_of(case, i, by):
    conc, r = case["conc"], case["rows"][i]
    v = {"Name": lambda: conc["names"][r[2] - 1], "Thread": lambda: conc["locs"][r[0] - 1][1], "Group": lambda: conc["group"][i]}
    return tuple(v[b]() for b in (by if isinstance(by, list) else [by]))


def groups(cases):
    """Numbers for the keys of several runs: key -> number, and the numbers per run and row."""
    num = {}
    out = []
    for case in cases:
        out.append([num.setdefault(key_of(case, i, case["by"]), len(num) + 1) for i in range(len(case["rows"]))])
    return num, out


def procs(case):
    """Numbers of the processes, and the process of each location in use."""
    num = {}
    used = {r[0] for r in case["rows"]}
    return num, [num.setdefault(l[0], len(num) + 1) if q + 1 in used else 0 for q, l in enumerate(case["conc"]["locs"])]


def frame(case):
    import pandas as pd

    df = gamma.frame(case)
    if case["conc"].get("group"):
        df["Group"] = pd.Series(case["conc"]["group"], dtype=object)
        if case["conc"]["group_cat"]:
            df["Group"] = df["Group"].astype("category")
    return df


def make_trace(case):
    if "via" in case:
        return gamma.make_trace(case)
    from pipit.trace import Trace

    return Trace(None, frame(case))


def run_of(case, t, grp):
    num, proc = procs(case)
    return dict(rows=case["rows"], met=gamma.model_cols(case), grp=grp, proc=proc), gamma.project_rows(t.events, case)


def make_cases(tier, seed, rep, n=500, prep=None, met=True, **conc):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    plans = [(4, 2, 1, False), (3, 2, 2, False)] if tier == "quick" else [(4, 2, 2, True), (5, 2, 2, False), (4, 3, 2, False), (6, 2, 1, False)]
    small = []
    for rows in stack.recordings(tier, rep, plans):
        rows = gamma.retime(rng, rows)
        m = gamma.random_met(rng, rows) if met else []
        small.append(dict(rows=rows, met=m, conc=gamma.concretize(rng, rows, m, **{"huge": True, **conc})))
    rnd = []
    for k in range(n if tier == "quick" else 20 * n):
        big = 60 if k % 10 else 200
        if tier == "thorough" and k % 100 == 0:
            big = 700
        rows = gamma.random_rows(rng, max_rows=big)
        m = gamma.random_met(rng, rows) if met else []
        rnd.append(dict(rows=rows, met=m, conc=gamma.concretize(rng, rows, m, **{"huge": True, **conc})))
    large = stack.big_cases(rng, tier, met, **{"huge": True, **conc})
    for c in small + rnd + large:
        prep(rng, c)
    return [("TLC, all recordings of small size", small), ("random recorder", rnd), ("large recordings", large)]


def weight(rec):
    return sum(stack.weight(r) for r in rec["runs"]) * 2


def metric_name(case, w):
    return gamma.derived_name(case, w[1] - 1, "." + w[0]) if w[0] != "raw" else gamma.col_name(case, w[1] - 1)


def scale(case, w):
    """base and unit of a metric's sums (raw metrics have to have base 0)"""
    return gamma.col_unit(case, w[1] - 1)

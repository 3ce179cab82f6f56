"""Several runs."""
import random

from .. import gamma
from . import profile, stack
from .profile import ASSUMPTIONS, weight  # noqa: F401


def design(tier):
    return profile.design(tier)


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    plans = [(4, 2, 1, False), (3, 2, 2, False)] if tier == "quick" else [(4, 2, 2, True), (5, 2, 2, False)]
    pool = [gamma.retime(rng, r) for r in stack.recordings(tier, rep, plans)]
    small, rnd = [], []
    for k in range(300 if tier == "quick" else 4000):
        small.append(one(rng, [rng.choice(pool) for _ in range(rng.randint(1, 3))]))
    for k in range(300 if tier == "quick" else 4000):
        rnd.append(one(rng, [gamma.random_rows(rng, max_rows=50) for _ in range(rng.randint(1, 5))]))
    large = [one(rng, [gamma.big_rows(rng, k), gamma.random_rows(rng)][:rng.randint(1, 2)]) for k in gamma.BIG]
    return [("TLC, sets of small recordings", small), ("random recorder", rnd), ("large recordings", large)]


def one(rng, runs):
    nn = max(r[2] for rows in runs for r in rows)
    names = gamma.names(rng, nn)
    metcols = rng.choice([0, 0, 1])
    out = []
    base = None
    col = rng.randint(0, metcols)
    by = rng.choice(["Name", "Name", "Name", "list", "Group"])
    for rows in runs:
        # the functions of the runs overlap in part
        rows = [list(r) for r in rows]
        if rng.random() < 0.5:
            shift = rng.randint(0, nn - 1)
            rows = [[r[0], r[1], (r[2] + shift - 1) % nn + 1, r[3]] for r in rows]
        met = gamma.random_met(rng, rows, metcols)
        conc = gamma.concretize(rng, rows, met, plain_names=names, small=True)
        if base is None:
            base = conc
        conc.update(unit=base["unit"], float=base["float"], base=base["base"])
        for c, b in zip(conc["cols"], base["cols"]):
            c.update(name=b["name"], unit=b["unit"], base=b["base"])
        for c, m in zip(conc["cols"], met):
            c["float"] = c["float"] or c["unit"] != int(c["unit"]) or any(x == [] for x in m)
        c = dict(rows=rows, met=met, conc=conc)
        profile.group_by(rng, c, kinds=(by,))
        out.append(c)
    return dict(runs=out, col=col, what=[["exc", col + 1]], plain=rng.random() < 0.5, again=rng.random() < 0.2)


def conf(case):
    return ("Conf_Profile", (("Prop", "C13"),))


def observe(case):
    from pipit.trace import Trace

    runs, col = case["runs"], case["col"]
    ts = [profile.make_trace(c) for c in runs]
    num, grp = profile.groups(runs)
    kw = {}
    if col or not case["plain"]:
        kw["metric_column"] = gamma.col_name(runs[0], col)
    if runs[0]["by"] != "Name" or not case["plain"]:
        kw["groupby_column"] = runs[0]["by"]
    df = Trace.multirun_analysis(ts, **kw)
    if case["again"]:
        df = Trace.multirun_analysis(ts, **kw)
    o = dict(rows=[], procs=[gamma.index_cell(v, 0, offset=0, none=-1) for v in df.index],
             cols=[num.get(k if isinstance(k, tuple) else (k,), 0) for k in df.columns])
    u = gamma.col_unit(runs[0], col)
    o["table"] = [[gamma.cell(v, 0, u, den=64) for v in row] for row in df.values.tolist()]
    rs = []
    for c, t, g in zip(runs, ts, grp):
        run, rows = profile.run_of(c, t, g)
        rs.append(run)
        o["rows"].append(rows)
    return dict(runs=rs, what=case["what"], obs=o)


def corrupt(rec):
    if not rec["obs"]["cols"]:
        rec["obs"]["procs"][0] += 1
        return rec
    rec["obs"]["cols"].pop()
    return rec

"""Communication matrix and totals per process."""
from .. import gamma
from . import comm
from .comm import ASSUMPTIONS, design, weight  # noqa: F401


def cases(tier, seed, rep):
    def prep(rng, c):
        c["default"] = rng.random() < 0.5
        c["order"] = rng.sample(["count", "size", "bycount", "bysize"], 4)
    return comm.cases(tier, seed, rep, prep)


def conf(case):
    return ("Conf_Comm", (("Prop", "C11"),))


def observe(case):
    t = comm.make_trace(case)
    o = {}
    for what in case["order"]:
        out = what.replace("by", "")
        unit = case["conc"]["sunit"] if out == "size" else 1
        kw = {} if out == "size" and case["default"] else dict(output=out)
        if what.startswith("by"):
            df = t.comm_by_process(**kw)
            o[what] = [[gamma.cell(p), gamma.cell(s, 0, unit), gamma.cell(r, 0, unit)] for p, s, r in zip(df.index.tolist(), df["Sent"].tolist(), df["Received"].tolist())]
        else:
            o[what] = [[gamma.cell(v, 0, unit) for v in row] for row in t.comm_matrix(**kw).tolist()]
    o["kept"] = comm.kept(t, case)
    return dict(rows=case["rows"], procs=case["conc"]["procs"], asks=[], obs=o)


def corrupt(rec):
    rec["obs"]["size"][-1][-1][0] += 1
    return rec

"""Load imbalance."""
from .. import gamma
from . import profile
from .profile import ASSUMPTIONS, design, weight  # noqa: F401


def prep(rng, c):
    c["by"] = "Name"
    k = 1 + len(c["met"])
    c["what"] = [rng.choice([["exc", 1], ["exc", 1], ["inc", 1]] + [[m, col] for m in ("inc", "exc") for col in range(2, k + 1)])]
    c["k"] = rng.choice([1, 1, 2, 3, 4, 20])


def cases(tier, seed, rep):
    return profile.make_cases(tier, seed, rep, 500, prep)


def conf(case):
    return ("Conf_Profile", (("Prop", "C08"),))


def observe(case):
    t = profile.make_trace(case)
    num, grp = profile.groups([case])
    pnum, _ = profile.procs(case)
    w = case["what"][0]
    if w[1] > 1:
        (t.calc_inc_metrics if w[0] == "inc" else t.calc_exc_metrics)([gamma.col_name(case, w[1] - 1)])
    name = profile.metric_name(case, w)
    kw = {}
    if name != "time.exc" or case["conc"]["order"]:
        kw["metric"] = name
    if case["k"] != 1 or case["conc"]["order"]:
        kw["num_processes"] = case["k"]
    df = t.load_imbalance(**kw)
    imb = []
    u = profile.scale(case, w)
    for f, r in zip(list(df.index), df.to_dict("records")):
        imb.append([num.get((f,), 0), gamma.cell(r[name + ".mean"], 0, u, den=64), gamma.cell(r[name + ".imbalance"], 0, 1, den=10**6),
                    [pnum.get(p, 0) for p in r["Top processes"]]])
    run, rows = profile.run_of(case, t, grp[0])
    return dict(runs=[run], what=case["what"], obs=dict(rows=[rows], imb=imb, k=case["k"]))


def corrupt(rec):
    if not rec["obs"]["imb"]:
        return None
    rec["obs"]["imb"][-1][3].append(1)
    return rec

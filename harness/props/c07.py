"""Flat profiles."""
from .. import gamma
from . import profile
from .profile import ASSUMPTIONS, design, weight  # noqa: F401


def prep(rng, c):
    profile.group_by(rng, c)
    k = 1 + len(c["met"])
    pool = [[m, col] for m in ("inc", "exc") for col in range(1, k + 1)]
    for j, col in enumerate(c["conc"]["cols"]):
        if col["base"] == 0:
            pool.append(["raw", j + 2])
    one = rng.random() < 0.5
    c["what"] = [rng.choice([["exc", 1], ["inc", 1]])] if one else rng.sample(pool, rng.randint(1, min(3, len(pool))))
    # default: neither metrics nor the grouping is passed
    c["plain"] = rng.random() < 0.5


def cases(tier, seed, rep):
    return profile.make_cases(tier, seed, rep, 500, prep)


def conf(case):
    return ("Conf_Profile", (("Prop", "C07"),))


def key(k):
    return k if isinstance(k, tuple) else (k,)


def observe(case):
    t = profile.make_trace(case)
    num, grp = profile.groups([case])
    pnum, _ = profile.procs(case)
    what = case["what"]
    for w in what:
        if w[1] > 1 and w[0] == "inc":
            t.calc_inc_metrics([gamma.col_name(case, w[1] - 1)])
        if w[1] > 1 and w[0] == "exc":
            t.calc_exc_metrics([gamma.col_name(case, w[1] - 1)])
    names = [profile.metric_name(case, w) for w in what]
    kw = dict(metrics=names[0] if len(names) == 1 and case["plain"] else names, groupby_column=case["by"])
    if case["plain"] and kw["metrics"] == "time.exc":
        del kw["metrics"]
    if case["plain"] and case["by"] == "Name":
        del kw["groupby_column"]
    flat = t.flat_profile(**kw)
    per = t.flat_profile(per_process=True, **kw)
    o = dict(flat=[], per=[])
    for k, vals in zip(list(flat.index), flat[names].values.tolist()):
        o["flat"].append([num.get(key(k), 0), [gamma.cell(v, 0, profile.scale(case, w), den=64) for v, w in zip(vals, what)]])
    for k, vals in zip(list(per.index), per[names].values.tolist()):
        k = key(k)
        o["per"].append([num.get(k[:-1], 0), pnum.get(k[-1], 0), [gamma.cell(v, 0, profile.scale(case, w)) for v, w in zip(vals, what)]])
    run, rows = profile.run_of(case, t, grp[0])
    o["rows"] = [rows]
    return dict(runs=[run], what=what, obs=o)


def corrupt(rec):
    if not rec["obs"]["flat"]:
        return None
    rec["obs"]["flat"].pop()
    return rec

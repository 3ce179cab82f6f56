import random

from .. import gamma
from . import stack
from .stack import ASSUMPTIONS, weight  # noqa: F401


def design(tier):
    return stack.design(tier, readings=1)


def ask(rng, case):
    """Which columns are asked for: None for all, or calls with lists."""
    k = 1 + len(case["met"])
    r = rng.random()
    if r < 0.4:
        return [None]
    if r < 0.6:
        return [[rng.randrange(k)]]
    if r < 0.75:
        return [rng.sample(range(k), rng.randint(1, k)), None]
    out = [[c] for c in range(k)]
    rng.shuffle(out)
    return out + ([None] if rng.random() < 0.3 else [])


def cases(tier, seed, rep):
    out = stack.trace_cases(tier, seed, rep, met=True)
    rng = random.Random("%s-ask" % seed)
    for _, cs in out:
        for c in cs:
            c["ask"] = ask(rng, c)
    return out + [("known finding", [time_column(rep.prop)])]


def time_column(prop):
    """A numeric column named "time" (see known_findings.json)."""
    rows = [[1, 0, 1, 0], [1, 1, 1, 5]]
    met = [[[3], [4]]]
    conc = gamma.concretize(random.Random(0), rows, met)
    conc["cols"][0]["name"] = "time"
    return dict(rows=rows, met=met, conc=conc, ask=[None], kf=prop + "-time-column")


def conf(case):
    return ("Conf_CallStack", (("Prop", "C04"),))


def run(case, t, calc):
    asked = set()
    for a in case["ask"]:
        if a is None:
            calc()
            asked |= set(range(1 + len(case["met"])))
        else:
            calc([gamma.col_name(case, k) for k in a])
            asked |= set(a)
    return sorted(asked)


def observe(case):
    t = gamma.make_trace(case)
    asked = run(case, t, t.calc_inc_metrics)
    df = stack.last(t.events, case)
    rec = stack.base_rec(case, df)
    rec["obs"]["cols"] = [k + 1 for k in asked]
    rec["obs"]["inc"] = [[gamma.cell(v, 0, gamma.col_unit(case, k)) for v in df[gamma.derived_name(case, k, ".inc")].tolist()] for k in asked]
    return rec


def corrupt(rec):
    return rec if stack.bump(rec["obs"]["inc"][0]) else None

from .. import gamma
from . import stack
from .stack import ASSUMPTIONS, weight  # noqa: F401


def design(tier):
    return stack.design(tier)


def cases(tier, seed, rep):
    return stack.trace_cases(tier, seed, rep)


def conf(case):
    return ("Conf_CallStack", (("Prop", "C01"),))


def observe(case):
    t = gamma.make_trace(case)
    t._match_events()
    df = stack.last(t.events, case)
    rec = stack.base_rec(case, df)
    stack.mates(df, rec, len(case["rows"]))
    c = case["conc"]
    rec["obs"]["mts"] = [gamma.cell(v, c["base"], c["unit"]) for v in df["_matching_timestamp"].tolist()]
    return rec


def corrupt(rec):
    return rec if stack.bump(rec["obs"]["mate"]) else None

from .. import gamma
from . import stack
from .stack import ASSUMPTIONS, weight  # noqa: F401


def design(tier):
    return stack.design(tier)


def cases(tier, seed, rep):
    return stack.trace_cases(tier, seed, rep)


def conf(case):
    return ("Conf_CallStack", (("Prop", "C02"),))


def observe(case):
    t = gamma.make_trace(case)
    t._match_caller_callee()
    df, n = stack.last(t.events, case), len(case["rows"])
    rec = stack.base_rec(case, df)
    o = rec["obs"]
    o["par"] = [gamma.index_cell(v, n) for v in df["_parent"].tolist()]
    o["dep"] = [gamma.index_cell(v, n, offset=0, none=-1) for v in df["_depth"].tolist()]
    o["kids"] = [stack.kids_cell(v) for v in df["_children"].tolist()]
    return rec


def corrupt(rec):
    return rec if stack.bump(rec["obs"]["dep"]) else None

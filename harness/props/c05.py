from .. import gamma
from . import c04, stack
from .stack import ASSUMPTIONS, weight  # noqa: F401


def design(tier):
    return stack.design(tier, readings=1)


cases = c04.cases


def conf(case):
    return ("Conf_CallStack", (("Prop", "C05"),))


def observe(case):
    t = gamma.make_trace(case)
    asked = c04.run(case, t, t.calc_exc_metrics)
    df = stack.last(t.events, case)
    rec = stack.base_rec(case, df)
    rec["obs"]["cols"] = [k + 1 for k in asked]
    rec["obs"]["exc"] = [[gamma.cell(v, 0, gamma.col_unit(case, k)) for v in df[gamma.derived_name(case, k, ".exc")].tolist()] for k in asked]
    return rec


def corrupt(rec):
    return rec if stack.bump(rec["obs"]["exc"][0]) else None

"""Reading OTF2: metrics."""
from . import otf2

ASSUMPTIONS = otf2.ASSUMPTIONS + ["metrics of one archive have different names, and their readings are numbers"]
design, observe, weight = otf2.design, otf2.observe, otf2.weight


def cases(tier, seed, rep):
    return otf2.cases(tier, seed, rep, metrics=True)


def conf(case):
    return ("Conf_Otf2Reader", (("What", "metrics"),))


def corrupt(rec):
    rows = [r for r in rec["obs"]["rows"] if r[6]]
    if not rows:
        return None
    if len(rows) % 2:
        rows[-1][6][0][1] += 1
    else:
        rows[-1][6] = []
    return rec

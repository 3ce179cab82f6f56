"""Reading OTF2: events."""
from . import otf2

ASSUMPTIONS = otf2.ASSUMPTIONS
design, observe, weight = otf2.design, otf2.observe, otf2.weight


def cases(tier, seed, rep):
    return otf2.cases(tier, seed, rep, metrics=False)


def conf(case):
    return ("Conf_Otf2Reader", (("What", "events"),))


def corrupt(rec):
    if not rec["obs"]["rows"]:
        return None
    r = rec["obs"]["rows"][-1]
    i = len(rec["obs"]["rows"]) % 4
    r[i] = r[i] + 1
    return rec

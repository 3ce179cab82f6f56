"""Communication over time, and message sizes."""
from fractions import Fraction

from .. import gamma
from . import comm
from .comm import ASSUMPTIONS, design, weight  # noqa: F401

ASSUMPTIONS = ASSUMPTIONS + ["no message lies on an interval edge that has no exact floating point number"]


def safe(xs, lo, hi, nb, unit):
    """Equal intervals whose edges are exact, or no value lies on an inner one."""
    w = (Fraction(hi) - lo) * Fraction(unit) / nb
    if w.denominator & (w.denominator - 1) == 0:
        return True
    return not any((nb * (x - lo)) % (hi - lo) == 0 for x in xs if lo < x < hi)


def prep(rng, c):
    rows = c["rows"]
    ts = [r[4] for r in rows]
    sizes = [r[3] for r in rows if r[1] in (1, 2)]
    asks = []
    for _ in range(rng.randint(2, 6)):
        a = dict(what=rng.choice(["send", "recv", "sizes"]), by=rng.choice(["count", "size"]), nb=rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 16, 20, 50]), edges=[])
        if a["what"] == "sizes":
            a["by"] = "count"
            if rng.random() < 0.4:
                hi = max(sizes, default=0) + 2
                a["edges"] = sorted(rng.sample(range(0, hi + 3), min(hi + 3, rng.randint(2, 6))))
                a["nb"] = 0
            elif rng.random() < 0.3:
                a["nb"] = 20
            while a["nb"] > 1 and sizes and not safe(sizes, min(sizes), max(sizes), a["nb"], c["conc"]["sunit"]):
                a["nb"] -= 1
        else:
            xs = [r[4] for r in rows if r[1] in ((1, 2) if a["what"] == "send" else (3, 4))]
            while a["nb"] > 1 and not safe(xs, min(ts), max(ts), a["nb"], c["conc"]["unit"]):
                a["nb"] -= 1
        a["plain"] = rng.random() < 0.5
        asks.append(a)
    c["asks"] = asks


def cases(tier, seed, rep):
    return comm.cases(tier, seed, rep, prep)


def conf(case):
    return ("Conf_Comm", (("Prop", "C12"),))


def observe(case):
    t = comm.make_trace(case)
    conc = case["conc"]
    got = []
    for a in case["asks"]:
        if a["what"] == "sizes":
            kw = {} if a["nb"] == 20 and a["plain"] else dict(bins=a["nb"] or [e * conc["sunit"] for e in a["edges"]])
            hist, edges = t.message_histogram(**kw)
            base, unit = 0, conc["sunit"]
        else:
            kw = dict(output=a["by"], message_type="send" if a["what"] == "send" else "receive", bins=a["nb"])
            if a["plain"]:
                for k, v in (("output", "size"), ("message_type", "send"), ("bins", 50)):
                    if kw[k] == v:
                        del kw[k]
            hist, edges = t.comm_over_time(**kw)
            base, unit = conc["base"], conc["unit"]
        got.append(dict(hist=[gamma.cell(v, 0, conc["sunit"] if a["by"] == "size" else 1) for v in hist.tolist()], edges=[gamma.cell(v, base, unit, den=64) for v in edges.tolist()]))
    asks = [{k: a[k] for k in ("what", "by", "nb", "edges")} for a in case["asks"]]
    return dict(rows=case["rows"], procs=conc["procs"], asks=asks, obs=dict(got=got, kept=comm.kept(t, case)))


def corrupt(rec):
    rec["obs"]["got"][-1]["hist"][0][0] += 1
    return rec

"""Time profile."""
import random
from fractions import Fraction

from .. import gamma, tlc
from . import profile, stack

ASSUMPTIONS = stack.ASSUMPTIONS + [
    "amounts are exact or off by less than the shown hundredth; where clocks start at a large number, interval lengths are whole numbers of nanoseconds",
    "no function is named as one of the table's own columns (idle_time, bin_start, bin_end)"]


def design(tier):
    q = [dict(name="2 locations", consts=dict(MaxRows=4, NLoc=2, NName=1, WithOther=False, Readings=0, Bins={1, 2, 3}, MaxTime=2)),
         dict(name="1 location", consts=dict(MaxRows=4, NLoc=1, NName=2, WithOther=False, Readings=0, Bins={2, 3}, MaxTime=3))]
    if tier == "thorough":
        q = [dict(name="2 locations", consts=dict(MaxRows=4, NLoc=2, NName=2, WithOther=True, Readings=0, Bins={1, 2, 3}, MaxTime=3)),
             dict(name="1 location", consts=dict(MaxRows=6, NLoc=1, NName=2, WithOther=False, Readings=0, Bins={2, 3}, MaxTime=3))]
    return [dict(module="MC_TimeBins", spec="BinSpec", invariants=["InvBins"], must=["DoBegin", "DoRunClock", "DoPassEvent"], workers=8, timeout=3000, **d)
            for d in q]


def settle(rng, case):
    """Number of intervals, and a clock that makes everything exact enough."""
    rows, conc = case["rows"], case["conc"]
    span = rows[-1][3] - rows[0][3]
    case["normalized"] = rng.random() < 0.4
    case["nb"] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16])
    if conc["base"] > 1000:
        ds = [d for d in range(1, 17) if (span * Fraction(conc["unit"])) % d == 0]
        if ds:
            case["nb"] = rng.choice(ds)
        else:
            conc["base"] = 100
    elif rng.random() < 0.15:
        conc.update(unit=rng.choice([2**-7, 2**-8, 2**-9]), float=True)
    elif rng.random() < 0.04:
        case["nb"] = 50
    u = Fraction(conc["unit"])
    while (case["nb"] * u.denominator) % (100 * u.numerator) == 0:
        case["nb"] -= 1
    case["default"] = case["nb"] == 50


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    plans = [(4, 1, 1, 3), (4, 1, 2, 1)] if tier == "quick" else [(4, 2, 2, 2), (4, 1, 2, 4), (6, 1, 2, 1), (6, 1, 1, 2)]
    small = []
    for n, loc, nm, mt in plans:
        got, r = tlc.generate("MC_TimeBins", dict(MaxRows=n, NLoc=loc, NName=nm, WithOther=False, Readings=0, Bins={1}, MaxTime=mt), spec="GenSpecT")
        rep.add_tlc("generation", r)
        if tier == "quick" and len(got) > 350:
            got = rng.sample(got, 350)
        small += [dict(rows=g, met=[], conc=gamma.concretize(rng, g)) for g in got]
    rnd = []
    for k in range(450 if tier == "quick" else 9000):
        kind = rng.choice(["tree", "deep", "wide", "ties", "many", "cut"])
        rows = gamma.random_rows(rng, kind, max_rows=40 if k % 10 else 100)
        if rng.random() < 0.5:     # long stretches without events
            t, last, f = 0, rows[0][3], rng.choice([3, 7])
            for r in rows:
                d = r[3] - last
                last = r[3]
                t += d * (f if rng.random() < 0.3 else 1)
                r[3] = t
        rnd.append(dict(rows=rows, met=[], conc=gamma.concretize(rng, rows, small=rng.random() < 0.6)))
    large = stack.big_cases(rng, tier, False, small=True)
    for c in small + rnd + large:
        settle(rng, c)
    return [("TLC, all recordings of small size with times", small), ("random recorder", rnd), ("large recordings", large)]


def conf(case):
    return ("Conf_TimeBins", ())


def weight(rec):
    nq = len({r[0] for r in rec["rows"]})
    return (3 * len(rec["rows"]) + rec["nb"] * nq) * (10 + len(rec["rows"]) // 3)


def observe(case):
    t = gamma.make_trace(case)
    conc, nb = case["conc"], case["nb"]
    kw = {} if case["default"] else dict(num_bins=nb)
    if case["normalized"]:
        kw["normalized"] = True
    df = t.time_profile(**kw)
    nm = {n: i + 1 for i, n in reversed(list(enumerate(conc["names"])))}
    own = ["bin_start", "bin_end", "idle_time"]
    cols = [c for c in df.columns if c not in own]
    u = conc["unit"]
    base, unit, den = (0, 1, 10**6) if case["normalized"] else (0, u, 64)
    bins = []
    for row in df.to_dict("records"):
        bins.append([gamma.cell(row["bin_start"], conc["base"], u, den=64), gamma.cell(row["bin_end"], conc["base"], u, den=64),
                     gamma.cell(row["idle_time"], base, unit, den=den),
                     [gamma.cell(row[c], base, unit, den=den, missing_zero=True) for c in cols]])
    _, proc = profile.procs(case)
    procs = len({proc[r[0] - 1] for r in case["rows"] if r[1] == 0})
    f = Fraction(u)
    return dict(rows=case["rows"], met=gamma.model_cols(case), nb=nb, normalized=case["normalized"], procs=procs, proc=proc, un=f.numerator, ud=f.denominator,
                obs=dict(rows=gamma.project_rows(t.events, case), bins=bins, names=[nm.get(c, 0) for c in cols]))


def corrupt(rec):
    if rec["rows"][0][3] == rec["rows"][-1][3] or any(r[1] == 2 for r in rec["rows"]) or len({tuple(r[:1]) for r in rec["rows"]}) > 1:
        return None
    # only recordings that are surely well nested
    depth = []
    for r in rec["rows"]:
        if r[1] == 0:
            depth.append(r[2])
        elif not depth or depth.pop() != r[2]:
            return None
    rec["obs"]["bins"][-1][1][0] += 1
    return rec

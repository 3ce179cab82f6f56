"""Shared by the properties of the OTF2 reader."""
import os
import random
import shutil

from .. import otf2gen, tlc

ASSUMPTIONS = ["archives are written with the OTF2 library's own Python writer; the numbers of locations are any, those of threads are the differences from the lowest of the process's CPU threads",
               "times in nanoseconds are compared to 12 significant digits"]


def design(tier):
    inv = ["EveryEventOnce", "InOrderOfTime", "ReadingsStay", "ThreadsNumbered"]
    mk = lambda name, a, b, c, d, shuffled=False: dict(name=name, module="MC_Otf2Reader", consts=dict(MaxLocs=a, MaxRecs=b, MaxTime=c, MaxMetric=d, Shuffled=shuffled), invariants=inv,
                                       properties=["RowsStay"], must=["DoTakeReading"] * (d > 0) + ["DoTakeEvent", "DoSkip"], workers=8, timeout=3000)
    if tier == "quick":
        return [mk("two locations", 2, 2, 1, 2), mk("one location", 1, 3, 1, 2), mk("numbers", 3, 1, 0, 0, True)]
    return [mk("two locations", 2, 3, 1, 1), mk("one location", 1, 4, 2, 2), mk("numbers", 3, 1, 0, 1, True)]


def cases(tier, seed, rep, metrics):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    got, r = tlc.generate("MC_Otf2Reader", dict(MaxLocs=2, MaxRecs=2, MaxTime=1, MaxMetric=2 if metrics else 1, Shuffled=False))
    rep.add_tlc("generation", r)
    want = lambda g: any(a["cpu"] for a in g) and (not metrics or any(x[1] == 3 for a in g for x in a["recs"]))
    got = [g for g in got if want(g)]
    got = rng.sample(got, min(len(got), 220 if tier == "quick" else 5000))
    small = [make(rng, number(g)) for g in got]
    rnd = [make(rng, otf2gen.random_arch(rng, metrics=rng.choice([1, 2, 3, 5, 12]) if metrics else rng.choice([0, 0, 2]), max_recs=(40 if k % 8 else 250) if not metrics else 30 if k % 8 else 90))
           for k in range(220 if tier == "quick" else 4000)]
    return [("TLC, small archives", small), ("random archives", rnd)]


def number(arch):
    seen = sorted({a["proc"] for a in arch})
    for a in arch:
        a["proc"] = seen.index(a["proc"]) + 1
        if not a["recs"]:
            a["recs"] = []
        a["recs"] = [list(r) for r in a["recs"]]
    return arch


def make(rng, arch):
    return dict(arch=arch, conc=otf2gen.concretize(rng, arch), workers=rng.choice([1, 1, 2, 3, 8]))


def observe(case):
    path = otf2gen.scratch()
    try:
        expected = otf2gen.write(case, path)
        t = otf2gen.read(case, path, case["workers"], case["conc"]["create_cct"])
        tree = (t.cct is not None) if case["conc"]["create_cct"] else True
        df = t.events
        if case["conc"]["create_cct"]:
            cols = [c for c in df.columns if c in ("Timestamp (ns)", "Event Type", "Name", "Thread", "Process", "Attributes") or c in case["conc"]["metrics"]]
            df = df[cols]
        rows, columns, metrics = otf2gen.project(case, df, expected)
    finally:
        shutil.rmtree(os.path.dirname(path))
    return dict(arch=case["arch"], obs=dict(rows=rows, columns=columns, metrics=metrics, tree=bool(tree)))


def weight(rec):
    n = sum(len(a["recs"]) for a in rec["arch"])
    return 20 + n * (4 + n // 4)

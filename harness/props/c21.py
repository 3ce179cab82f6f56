"""Timelines of HPCToolkit databases."""
import os
import random
import shutil

from .. import hpctgen, tlc, work

ASSUMPTIONS = ["trace lines differ in their rank, thread, node or core; lines without a rank are of process 0",
               "samples of a trace line are in order of time, as the format says"]


def design(tier):
    inv = ["Nested", "Followed", "Minimal", "Balanced", "TimesRise"]
    mk = lambda name, a, b, c, d: dict(name=name, module="MC_HpctTimeline", consts=dict(MaxCtxs=a, MaxLines=b, MaxSamples=c, MaxTime=d), invariants=inv,
                                       properties=["AllReached"], must=["DoLeave", "DoEnter", "DoReach", "DoEnd"], workers=8, timeout=3000)
    if tier == "quick":
        return [mk("one line", 3, 1, 2, 2), mk("two lines", 2, 2, 1, 1)]
    return [mk("one line", 3, 1, 4, 2), mk("deeper trees", 4, 1, 3, 2), mk("two lines", 2, 2, 2, 1)]


def make(rng, ctxs, fns, lines, finish):
    return dict(ctxs=ctxs, fns=fns, lines=lines, finish=finish, conc=hpctgen.concretize(rng, ctxs, fns, lines))


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    got, r = tlc.generate("MC_HpctTimeline", dict(MaxCtxs=3, MaxLines=1, MaxSamples=3, MaxTime=2))
    rep.add_tlc("generation", r)
    got = rng.sample(got, min(len(got), 500 if tier == "quick" else 15000))
    small = []
    for g in got:
        entries, ctxs = 0, []
        for p, kind in g["ctxs"]:
            entries += kind == 4
            ctxs.append([p, kind, entries if kind == 4 else 1 if kind == 0 else 0, 1 if kind in (1, 2) else 0, 3 if kind in (1, 2) else -1])
        if entries > 3:
            continue
        small.append(make(rng, ctxs, [[1, 1, 1]], g["lines"], 2))
    rnd = []
    for k in range(250 if tier == "quick" else 5000):
        ctxs, fns = hpctgen.random_tree(rng, rng.randint(3, 30))
        span = rng.choice([3, 10, 1000])
        lines = [hpctgen.random_samples(rng, len(ctxs), rng.randint(0, 12) if k % 15 else 100, span) for _ in range(rng.randint(1, 5) if k % 10 else 12)]
        top = max([s[-1][0] for s in lines if s], default=0)
        rnd.append(make(rng, ctxs, fns, lines, top if rng.random() < 0.7 else span + 3))
    deep = []
    for k in range(20 if tier == "quick" else 300):     # long chains of calls
        n = rng.choice([30, 60]) if k else rng.randint(1050, 1200)
        ctxs = [[0, 4, 1, 0, -1]] + [[i, 0, 1, 0, -1] for i in range(1, n)]
        lines = [hpctgen.random_samples(rng, n, rng.randint(1, 8), 10)]
        deep.append(make(rng, ctxs, [[1, 1, 1]], lines, 10))
    return [("TLC, small trees and samples", small), ("random databases", rnd), ("deep recursion", deep)]


def observe(case):
    from pipit.trace import Trace

    tmp = work.place()
    try:
        path = os.path.join(tmp, "db")
        hpctgen.write(case, path)
        t = Trace.from_hpctoolkit(path)
        rows, columns = hpctgen.project(case, t.events)
    finally:
        shutil.rmtree(tmp)
    return dict(ctxs=[c[:2] for c in case["ctxs"]], lines=case["lines"], finish=case["finish"], obs=dict(rows=rows, columns=bool(columns)))


def conf(case):
    return ("Conf_HpctTimeline", ())


def weight(rec):
    n = len(rec["obs"]["rows"])
    return 20 + n * 8 + n * n // 20


def corrupt(rec):
    rows = rec["obs"]["rows"]
    if not rows:
        return None
    r = rows[-1]
    r[len(rows) % 4] += 1
    return rec

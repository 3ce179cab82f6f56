"""Context trees of HPCToolkit databases."""
import os
import random
import shutil

from .. import hpctgen, tlc, work

ASSUMPTIONS = ["function names are not the placeholders the reader uses (\"loop\", an unknown function)",
               "modules are not compared: they do not reach the trace; lines of functions without a file are the format's 0"]


def design(tier):
    inv = ["NodesRight", "UpRight", "SourceRight", "Forest"]
    return [dict(name="trees of %d contexts" % n, module="MC_HpctContext", consts=dict(MaxCtxs=n, MaxFns=f), invariants=inv,
                 must=["ReadEntry", "ReadFunction", "ReadLoop", "ReadInner"], workers=8, timeout=3000)
            for n, f in ([(4, 1)] if tier == "quick" else [(4, 2), (5, 1)])]


def make(rng, ctxs, fns):
    order = list(range(1, len(ctxs) + 1))
    rng.shuffle(order)
    samples = [[t, c] for t, c in enumerate(order)]
    return dict(ctxs=ctxs, fns=fns, lines=[samples], finish=len(order), conc=hpctgen.concretize(rng, ctxs, fns, [samples]))


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    got, r = tlc.generate("MC_HpctContext", dict(MaxCtxs=4, MaxFns=1))
    rep.add_tlc("generation", r)
    got = rng.sample(got, min(len(got), 600 if tier == "quick" else 20000))
    small = []
    for g in got:
        ctxs, fns = g["ctxs"], g["fns"]
        small.append(make(rng, ctxs, fns))
    rnd = []
    for k in range(300 if tier == "quick" else 6000):
        ctxs, fns = hpctgen.random_tree(rng, rng.randint(5, 40) if k % 20 else 250)
        rnd.append(make(rng, ctxs, fns))
    abyss = []      # deeper than recursive functions could follow
    for k in range(1 if tier == "quick" else 4):
        ctxs, fns = hpctgen.random_tree(rng, rng.randint(1150, 1250), deep=0.999, entries=1)
        abyss.append(make(rng, ctxs, fns))
    return [("TLC, small trees", small), ("random trees", rnd), ("deep trees", abyss)]


def observe(case):
    from pipit.trace import Trace

    tmp = work.place()
    try:
        path = os.path.join(tmp, "db")
        hpctgen.write(case, path)
        t = Trace.from_hpctoolkit(path)
        obs = hpctgen.project_tree(case, t)
    finally:
        shutil.rmtree(tmp)
    return dict(ctxs=case["ctxs"], fns=case["fns"], obs=obs)


def conf(case):
    return ("Conf_HpctContext", ())


def weight(rec):
    n = len(rec["ctxs"])
    return n * (5 + n // 3)


def corrupt(rec):
    s = rec["obs"]["seen"][-1]
    s[len(rec["ctxs"]) % 8] += 1
    return rec

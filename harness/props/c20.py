"""Reading Projections logs."""
import os
import random
import shutil

from .. import prjgen, tlc, work

ASSUMPTIONS = ["the known kinds of records are those of Projections.tla (its Known); broadcasts of messages are not among them, and the reader's tests rely on that",
               "the record of a user supplied number has no time and is put at -1; blanks and quotes around names and notes are not compared",
               "entry methods are not named as the kinds of records are"]


def design(tier):
    inv = ["InOrder", "OneRowPerRecord", "EndsWithLeave", "LogOrder", "Recorded"]
    kinds = {6, 7, 2, 26, 29, 20}
    mk = lambda name, a, b, c, ks: dict(name=name, module="MC_Projections", consts=dict(MaxPes=a, MaxRecs=b, MaxTime=c, Kinds=ks), invariants=inv,
                                        must=["DoRead", "DoClose"], workers=8, timeout=3000)
    if tier == "quick":
        return [mk("one log", 1, 3, 2, kinds), mk("two logs", 2, 2, 1, {2, 7, 29})]
    return [mk("one log", 1, 4, 2, kinds | {1, 3}), mk("two logs", 2, 2, 1, kinds), mk("two longer logs", 2, 3, 1, {7, 29})]


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    got, r = tlc.generate("MC_Projections", dict(MaxPes=2, MaxRecs=2, MaxTime=1, Kinds={6, 7, 26, 29, 20}))
    rep.add_tlc("generation", r)
    got = rng.sample(got, min(len(got), 250 if tier == "quick" else 5000))
    kinds = [6, 7, 26, 29, 20]
    small = []
    for g in got:
        # the kinds TLC has explored stand for others of the same sort
        other = {6: rng.choice([6, 2, 8, 11, 14, 16, 18, 98]), 7: rng.choice([7, 7, 3, 9, 12, 15, 17, 19, 99]), 26: rng.choice([26, 1, 4, 5, 10, 13, 21, 27, 28, 32, 100]),
                 29: 29, 20: rng.choice(prjgen.UNKNOWN)}
        small.append(make(rng, [[[other[x[0]]] + list(x[1:]) for x in l] for l in g]))
    single = [make(rng, [[[k, 0, 0, 1, 2]]]) for k in prjgen.KNOWN + prjgen.UNKNOWN]
    rnd = [make(rng, prjgen.random_logs(rng, max_pes=12 if k % 20 == 0 else 4, max_recs=30 if k % 10 else 120)) for k in range(300 if tier == "quick" else 6000)]
    return [("every kind of record by itself", single), ("TLC, small logs", small), ("random logs", rnd)]


def make(rng, logs):
    return dict(logs=logs, conc=prjgen.concretize(rng, logs), workers=rng.choice([1, 1, 2, 3, 8]))


def observe(case):
    from pipit.trace import Trace

    tmp = work.place()
    try:
        path = os.path.join(tmp, "logs")
        prjgen.write(case, path)
        kw = dict(create_cct=True) if case["conc"]["create_cct"] else {}
        t = Trace.from_projections(path, num_processes=case["workers"], **kw)
        tree = t.cct is not None if kw else True
        rows, columns = prjgen.project(case, t.events)
    finally:
        shutil.rmtree(tmp)
    return dict(logs=case["logs"], obs=dict(rows=rows, columns=bool(columns), tree=bool(tree)))


def conf(case):
    return ("Conf_Projections", ())


def weight(rec):
    n = sum(len(l) for l in rec["logs"])
    return 20 + n * (4 + n // 2)


def corrupt(rec):
    if not rec["obs"]["rows"]:
        return None
    i = len(rec["obs"]["rows"]) % 6
    r = rec["obs"]["rows"][-1]
    r[i] = r[i] + 1
    return rec

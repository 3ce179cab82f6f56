"""Reading in parallel."""
import os
import random
import shutil

from .. import gamma, otf2gen, prjgen, tlc, work

ASSUMPTIONS = ["the order in which workers finish is forced by delaying the tasks of multiprocessing pools"]


def design(tier):
    inv = ["EveryLocationOnce", "EvenShares", "AsWithOne", "InOrder", "EveryRow"]
    mk = lambda name, a, b, c: dict(name=name, module="MC_ParallelRead", consts=dict(MaxLocs=a, MaxRows=b, MaxTime=c), invariants=inv,
                                    must=["DoFinish", "Collect"], workers=8, timeout=3000)
    if tier == "quick":
        return [mk("three locations", 3, 2, 1), mk("four locations", 4, 1, 1), mk("shares", 6, 0, 0)]
    return [mk("three locations", 3, 3, 1), mk("four locations", 4, 2, 1), mk("shares", 8, 0, 0)]


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    got, r = tlc.generate("MC_ParallelRead", dict(MaxLocs=5, MaxRows=0, MaxTime=0))
    rep.add_tlc("generation", r)
    got = [g for g in got if len(g[1]) > 1]
    few = [g for g in got if len(g[1]) < 4]
    many = [g for g in got if len(g[1]) >= 4]
    chosen = few + rng.sample(many, 40 if tier == "quick" else len(many))
    small = [make(rng, kind, n, len(finish), finish) for n, finish in chosen for kind in ("otf2", "projections")]
    rnd = []
    for k in range(120 if tier == "quick" else 1500):
        n = rng.randint(1, 14) if k % 10 else rng.randint(20, 40)
        req = rng.choice([rng.randint(1, n), rng.randint(1, 16), n, n + 3, None, 0])
        used = n if not req or req > n else req
        finish = list(range(1, used + 1))
        rng.shuffle(finish)
        rnd.append(make(rng, rng.choice(["otf2", "projections"]), n, req, finish))
    return [("TLC, all schedules of few workers", small), ("random schedules", rnd)]


def make(rng, kind, n, req, finish):
    data = []
    span = rng.choice([0, 1, 2, 5, 100])
    for _ in range(n):
        m = rng.choice([0, 1, 2, 3, 20]) if rng.random() < 0.7 else rng.randint(0, 60)
        data.append(sorted(rng.randint(0, span) for _ in range(m)))
    if not any(data):
        data[rng.randrange(n)] = [0]
    case = dict(kind=kind, data=data, requested=req, finish=finish)
    if kind == "otf2":
        procs = rng.choice([1, n, rng.randint(1, n)])
        alloc = sorted(rng.randint(1, procs) for _ in range(n)) if rng.random() < 0.6 else [rng.randint(1, procs) for _ in range(n)]
        seen = sorted(set(alloc))
        arch, what, metrics = [], 0, rng.choice([0, 0, 1, 3])
        where = rng.choice(["all", "some", "one location"])
        for l, times in enumerate(data):
            recs = []
            for t in times:
                what += 1
                if metrics and (where == "all" or (where == "some" and rng.random() < 0.5) or (where == "one location" and l == 0)):
                    recs.append([t, 3, 0, 0, [[m, rng.randint(0, 50)] for m in range(1, metrics + 1)]])
                recs.append([t, rng.randint(0, 1), what, 1, []])
            if metrics and rng.random() < 0.2 and times:
                recs.append([times[-1], 3, 0, 0, [[m, 7] for m in range(1, metrics + 1)]])
            arch.append(dict(proc=seen.index(alloc[l]) + 1, cpu=True, recs=recs))
        case["arch"] = arch
        case["conc"] = otf2gen.concretize(rng, arch)
        case["conc"]["regions"] = ["r%d" % i for i in range(1, what + 1)] or ["r"]
    else:
        logs, x = [], 0
        for pe, times in enumerate(data):
            recs = []
            for t in times[:-1]:
                x += 1
                recs.append([rng.choice([1, 2, 3]), t, x, 1 + rng.randint(0, 2), 0])
            if times and (len(times) == 1 or rng.random() < 0.5 or times[-1] != times[-2]):
                recs.append([7, times[-1], 0, 1, 0])
            logs.append(recs)
        conc = prjgen.concretize(rng, [])
        conc.update(entries=["e%d()" % i for i in range(x)], ids=list(range(x)), dims=[rng.choice(prjgen.DIMS) for _ in range(max(x, 1))])
        case["logs"], case["conc"] = logs, conc
    return case


def force_order(finish):
    """Tasks of a pool wait before they begin, as long as their place in the order says."""
    import multiprocessing.pool as mpp
    import time

    real = getattr(mpp.worker, "real", mpp.worker)
    delay = {w - 1: 0.02 * i for i, w in enumerate(finish)}

    def worker(inqueue, *args, **kw):
        get = inqueue.get

        def slow():
            task = get()
            if task is not None:
                try:
                    time.sleep(delay.get(task[1], 0))
                except Exception:
                    pass
            return task
        inqueue.get = slow
        return real(inqueue, *args, **kw)
    worker.real = real
    mpp.worker = worker
    return real


def observe(case):
    import multiprocessing as mp
    import multiprocessing.pool as mpp
    from pipit.trace import Trace

    tmp = work.place()
    counted = mp.cpu_count
    real = mpp.worker
    try:
        path = os.path.join(tmp, "in")
        if case["kind"] == "otf2":
            otf2gen.write(case, path)
            read = lambda n: Trace.from_otf2(path, num_processes=n).events
        else:
            prjgen.write(case, path)
            read = lambda n: Trace.from_projections(path, num_processes=n).events
        mp.cpu_count = lambda: 64
        one = read(1)
        if len(case["finish"]) < 13:
            force_order(case["finish"])
        got = read(case["requested"])
        mpp.worker = real
    finally:
        mp.cpu_count = counted
        mpp.worker = real
        shutil.rmtree(tmp)
    ident = {}
    if case["kind"] == "otf2":
        what = 0
        for l, times in enumerate(case["data"]):
            for i in range(len(times)):
                what += 1
                ident["r%d" % what] = [l + 1, i + 1]
        key = lambda k: cols["Name"][k]
    else:
        x = 0
        for l, times in enumerate(case["data"]):
            for i in range(len(times) - 1):
                ident["e%d()" % x] = [l + 1, i + 1]
                x += 1
            ident["Computation", l] = [l + 1, len(times)]
        key = lambda k: ("Computation", cols["Process"][k]) if cols["Name"][k] == "Computation" else cols["Name"][k]
    cols = {c: got[c].tolist() for c in got.columns}
    order = [ident.get(key(k), [0, 0]) for k in range(len(got))]
    columns = list(got.columns) == list(one.columns) and all(got[c].dtype == one[c].dtype for c in got.columns)
    same = sorted(got.columns) == sorted(one.columns) and list(got.index) == list(one.index)
    same = same and all(equal(cols[c], one[c].tolist()) for c in got.columns)
    return dict(data=case["data"], workers=len(case["finish"]), finish=case["finish"], obs=dict(order=order, same=bool(same), columns=bool(columns)))


def equal(a, b):
    return len(a) == len(b) and all(x == y or (gamma.is_missing(x) and gamma.is_missing(y)) for x, y in zip(a, b))


def conf(case):
    return ("Conf_ParallelRead", ())


def weight(rec):
    n = sum(len(d) for d in rec["data"])
    return 20 + n * (2 + n // 8) + rec["workers"] * n


def corrupt(rec):
    o = rec["obs"]["order"]
    if len(o) < 2 or o[-1] == o[-2]:
        return None
    o[-2] = o[-1]
    return rec

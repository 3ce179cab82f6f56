"""The same recording in any format: the same table, and the same analyses."""
import importlib
import random

from .. import formats, gamma, tlc
from . import c06, comm, profile, stack

ASSUMPTIONS = stack.ASSUMPTIONS + [
    "HPCToolkit samples the calling context at every enter and leave, and its times rise strictly within a location, as do those of Nsight ranges; both record completed, well nested calls only",
    "processing elements of Projections record their computation from its beginning to its end; locations of OTF2 are numbered from 0 without gaps",
    "which numbers Nsight's processes and threads are given is not judged"]
INV = ["StreamsHeld", "PairsAsInStreams", "NestedAsInStreams", "SumsAsInStreams", "NeverStuck"]
OTHERS = ["C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C16"]


def design(tier):
    mk = lambda name, a, b, c, d, o: dict(name=name, module="MC_Formats", consts=dict(MaxRows=a, NLoc=b, NName=c, MaxTime=d, WithOther=o), invariants=INV,
                                          must=["Record", "DoRead", "DoStartWork", "DoWork", "DoFeed"], workers=8, timeout=3000)
    if tier == "quick":
        return [mk("two locations", 4, 2, 1, 2, False), mk("two functions", 3, 2, 2, 1, True)]
    return [mk("two locations", 4, 2, 2, 1, False), mk("three locations", 4, 3, 1, 1, False), mk("other events", 4, 2, 1, 2, True)]


def rise(rows):
    """Times that rise strictly within every location, in order."""
    last, out = {}, []
    for r in rows:
        t = max(r[3], last.get(r[0], -1) + 1)
        last[r[0]] = t
        out.append([r[0], r[1], r[2], t])
    return sorted(out, key=lambda r: r[3])


def own(rng, fmt, rows):
    if fmt in formats.NESTED:
        rows = rise([r for r in rows if r[1] != 2])
    if not rows:
        return None
    met = [m for m in gamma.random_met(rng, rows) if any(m)] if fmt in ("csv", "otf2") else []
    c = formats.shape(rng, fmt, rows, met)
    if c is None:
        return None
    c["conc"]["types"] = [rng.choice(["Instant", "Loop", "enter"]) if fmt == "csv" else "Instant"] * len(c["rows"])
    c["as"] = "own"
    return c


def other(rng, fmt, prop):
    """A case of another property, with its recording in a format."""
    mod = importlib.import_module("harness.props." + prop.lower())
    nested = fmt in formats.NESTED
    if prop in ("C11", "C12"):
        np_ = rng.choice([1, 2, 3, 4, 7])
        rows = comm.network(rng, rng.randint(1, 30), np_)
        c = dict(rows=rows, conc=comm.concretize(rng, rows, np_))
        comm.add_quiet(c)
        formats.messages(rng, c)
        if prop == "C11":
            c.update(default=rng.random() < 0.5, order=rng.sample(["count", "size", "bycount", "bysize"], 4))
        else:
            mod.prep(rng, c)
        c["as"] = prop
        return c
    if prop == "C13":
        runs = []
        names = rng.sample([n for n in formats.NAMES["projections"] if n != "Idle work"], 6)
        for _ in range(rng.randint(1, 3)):
            f = rng.choice(formats.FORMATS)
            rows = formats.strictly(rng, gamma.random_rows(rng, nested=True, max_rows=30))
            c = formats.shape(rng, f, rows, unit=1000, names=names)
            if c is None:
                return None
            c["by"] = "Name"
            runs.append(c)
        return dict(runs=runs, col=0, what=[["exc", 1]], plain=rng.random() < 0.5, again=rng.random() < 0.2, **{"as": prop})
    rows = formats.strictly(rng, gamma.random_rows(rng, rng.choice(["tree", "deep", "wide", "many"]) if prop == "C10" else None, nested=nested, max_rows=30))
    met = [m for m in gamma.random_met(rng, rows) if any(m)] if prop in ("C07", "C08") and fmt in ("csv", "otf2") else []
    names = None
    if prop == "C09":
        names = [n for n in ["Idle", "idle", "MPI_Wait", "MPI_Recv", "foo", "main", "MPI_Waitall", "MPI_Irecv"]]
        rng.shuffle(names)
    c = formats.shape(rng, fmt, rows, met, names=names)
    if c is None:
        return None
    c["as"] = prop
    if prop == "C16":
        c.update(derived=rng.random() < 0.3, dest=rng.choice(["text", "file"]))
        if (rows[-1][3] - rows[0][3] + 1) * c["conc"]["unit"] > 10**9:
            return None
    if prop == "C07":
        mod.prep(rng, c)
        c["by"] = rng.choice(["Name", ["Name"]] + (["Thread", ["Name", "Thread"]] if c["conc"]["locs"][0][1] is not None else []))
        c["conc"].pop("group", None)
    elif prop == "C08":
        mod.prep(rng, c)
    elif prop == "C09":
        keep = list(c["conc"]["names"])
        mod.prep(rng, c)
        c["conc"]["names"] = keep
        c["asks"] = [[None if rng.random() < 0.4 else rng.sample(keep + ["nothing"], rng.randint(0, min(3, len(keep)))), rng.choice([True, False, None])] for _ in range(rng.randint(1, 4))]
    elif prop == "C10":
        base = c["conc"]["base"]
        mod.settle(rng, c)
        if c["conc"]["base"] != base or not 0.1 < c["conc"]["unit"] <= 10000:
            return None
    return c


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    small = []
    for d in [dict(MaxRows=3, NLoc=2, NName=2, MaxTime=1, WithOther=True), dict(MaxRows=4, NLoc=2, NName=1, MaxTime=1, WithOther=False)]:
        got, r = tlc.generate("MC_Formats", d)
        rep.add_tlc("generation", r)
        for g in rng.sample(got, min(len(got), 60 if tier == "quick" else 1500)):
            for fmt in formats.FORMATS:
                rows = gamma.merge(rng, [[list(e[:3]) for e in s] for s in g])
                c = own(rng, fmt, gamma.renumber(rows))
                if c:
                    small.append(c)
    rnd = []
    while len(rnd) < (250 if tier == "quick" else 6000):
        fmt = formats.FORMATS[len(rnd) % 5]
        c = own(rng, fmt, gamma.random_rows(rng, nested=fmt in formats.NESTED, max_rows=40 if len(rnd) % 10 else 120))
        if c:
            rnd.append(c)
    more = []
    n = 0
    while len(more) < (300 if tier == "quick" else 8000):
        n += 1
        c = other(rng, formats.FORMATS[n % 5], OTHERS[n // 5 % len(OTHERS)])
        if c:
            more.append(c)
    return [("TLC, small recordings in every format", small), ("random recordings in every format", rnd), ("other analyses of random recordings in every format", more)]


def module(prop):
    return importlib.import_module("harness.props." + prop.lower())


def conf(case):
    if case["as"] == "own":
        return ("Conf_Formats", ())
    return module(case["as"]).conf(case)


def observe(case):
    if case["as"] != "own":
        rec = module(case["as"]).observe(case)
        rec["as"] = case["as"]
        return rec
    t = formats.make_trace(case)
    conc, n = case["conc"], len(case["rows"])
    rows, met = gamma.project_rows(t.events, case), gamma.project_cols(t.events, case)
    streams = [[] for _ in conc["locs"]]
    for i, r in enumerate(case["rows"]):
        streams[r[0] - 1].append([r[1], r[2], r[3], [m[i] for m in case["met"]]])
    tree = True
    if case["via"]["cct"]:
        c2 = dict(case, via=dict(case["via"], cct=False))
        t2 = formats.make_trace(c2)
        t2.create_cct()
        tree = c06.tree_obs(t.events, t.cct, n) == c06.tree_obs(t2.events, t2.cct, n)
    t._match_caller_callee()
    t.calc_exc_metrics()
    for k in range(1, 1 + len(case["met"])):
        t.calc_exc_metrics([gamma.col_name(case, k)])
    names = [gamma.derived_name(case, 0, ".inc"), gamma.derived_name(case, 0, ".exc")]
    per = t.flat_profile(metrics=list(names), per_process=True)
    df = t.events
    nm = {x: i + 1 for i, x in enumerate(conc["names"])}
    pnum, proc = profile.procs(case)
    o = dict(rows=rows, met=met, tree=bool(tree), kept=rows == gamma.project_rows(df, case) and met == gamma.project_cols(df, case),
             mate=[gamma.index_cell(v, n) for v in df["_matching_event"].tolist()],
             par=[gamma.index_cell(v, n) for v in df["_parent"].tolist()],
             dep=[gamma.index_cell(v, n, offset=0, none=-1) for v in df["_depth"].tolist()],
             kids=[stack.kids_cell(v) for v in df["_children"].tolist()], per=[])
    ks = range(1 + len(case["met"]))
    for s in ("inc", "exc"):
        o[s] = [[gamma.cell(v, 0, gamma.col_unit(case, k)) for v in df[gamma.derived_name(case, k, "." + s)].tolist()] for k in ks]
    for k, vals in zip(list(per.index), per[names].values.tolist()):
        o["per"].append([nm.get(k[0], 0), pnum.get(k[-1], 0), [gamma.cell(v, 0, conc["unit"]) for v in vals]])
    return dict(streams=streams, cols=len(case["met"]), proc=proc, what=[["inc", 1], ["exc", 1]], obs=o, **{"as": "own"})


def weight(rec):
    if rec["as"] == "own":
        n = len(rec["obs"]["rows"])
        return n * (30 + n // 2)
    return module(rec["as"]).weight(rec)


def corrupt(rec):
    if rec["as"] != "own":
        return module(rec["as"]).corrupt(rec)
    o = rec["obs"]
    k = len(o["rows"]) % 3
    if k == 0:
        o["dep"][-1] += 1
    elif k == 1:
        o["rows"].pop()
    else:
        o["rows"][-1][3] += 1
    return rec

"""One recording written in any of the formats, and read back with pipit.

A case has rows [[location, type, name, time], ..] and conc as everywhere, and via: the format and how it is written.
What a format cannot express is not asked of it: `shape` makes a recording one that the format can hold.
"""
import csv
import os
import random
import shutil

from . import gamma, hpctgen, prjgen, work
from .gamma import Fraction

FORMATS = ["csv", "otf2", "projections", "hpctoolkit", "nsight"]
INSTANTS = {"otf2": ["MeasurementOnOff", "OmpFork", "MpiCollectiveBegin", "ProgramEnd"], "projections": ["Enque", "Deque", "Message Receive"]}
NESTED = ("hpctoolkit", "nsight")       # formats of completed, well nested calls
ANY = list(dict.fromkeys(gamma.ODD + gamma.PLAIN))
NAMES = {
    "csv": [n for n in ANY if n == n.strip()],
    "otf2": ANY,
    "projections": ["main(CkArgMsg* impl_msg)", "recv(PingMsg* impl_msg)", "f()", "g(int a, double b)", "maindone()", "a->b", "h(const bool &x)", "foo", "foo2", "Idle work",
                    "nan", "MPI_Recv", "MPI_Wait"],
    "hpctoolkit": [n for n in hpctgen.FUNCTIONS if n != "Loop"] + ["nan", "1", "->", "MPI_Wait", "Idle"],
    "nsight": ["foo", "solve", ":main", "null", "NA", "1", "", "a,b", "x \"q\"", "naïve λ", "kernel<float>", "None", "nan", "step 10", " lead", "MPI_Recv", "Idle", "->"],
}


def well_nested(rows):
    stacks = {}
    for q, t, n, _ in rows:
        s = stacks.setdefault(q, [])
        if t == 0:
            s.append(n)
        elif t == 1 and (not s or s.pop() != n):
            return False
    return not any(stacks.values())


def strictly(rng, rows):
    """All times differ."""
    k = rng.random()
    t, out = rng.randint(0, 3), []
    for r in rows:
        out.append([r[0], r[1], r[2], t])
        t += 1 if k < 0.5 else rng.choice([1, 1, 2, 7])
    return out


def shape(rng, fmt, rows, met=(), unit=None, names=None, locs=None):
    """A recording with strictly increasing times as the format holds it: rows, extra columns, conc, via. None if it cannot."""
    rows = [list(r) for r in rows]
    if fmt in NESTED:
        rows = [r for r in rows if r[1] != 2]
        if not rows or not well_nested(rows):
            return None
    if fmt in ("hpctoolkit", "nsight", "projections"):
        met = ()
    # locations and names in order of occurrence
    q_of = {}
    for r in rows:
        r[0] = q_of.setdefault(r[0], len(q_of) + 1)
    nq = len(q_of)
    calls = sorted({r[2] for r in rows if r[1] != 2})
    nn = len(calls)
    num = {n: i + 1 for i, n in enumerate(calls)}
    pool = list(names or NAMES[fmt])
    if len(pool) < nn:
        pool += ["f%d" % i for i in range(nn)]
    chosen = pool[:nn] if names else rng.sample(pool, nn)
    conc = dict(names=list(chosen), seed=rng.randint(0, 10**9), attrs=False, order=True, cat=[False] * 4, unused=False, cols=[], base=0, unit=1, float=False)
    inst = INSTANTS.get(fmt)
    extra = []
    if inst:
        extra = [x for x in inst if x not in chosen]
        conc["names"] += extra
    at = rows[0][3]
    for r in rows:
        if r[1] != 2:
            r[2] = num[r[2]]
        elif inst:
            r[2] = nn + 1 + r[2] % len(extra)
        else:
            r[2] = 1 + r[2] % max(nn, 1)
    if not conc["names"]:
        conc["names"] = ["foo"]
    via = dict(fmt=fmt, cct=fmt in ("otf2", "projections", "nsight") and rng.random() < 0.3, workers=rng.choice([1, 1, 2, 5]))
    if fmt == "csv":
        full = gamma.concretize(rng, rows, met)
        conc.update({k: full[k] for k in ("base", "unit", "float", "cols", "locs", "types")})
        if unit:
            conc.update(base=0, unit=unit)
        for c in conc["cols"]:
            c["float"] = True
            if c["name"].startswith("Timestamp (s)"):
                c["name"] = "seconds" + c["name"][13:]
        via["blocks"] = rng.random() < 0.3      # lines of a location one after the other
        via["columns"] = rng.random() < 0.5
        via["categorical"] = False
    else:
        conc["types"] = ["Instant" if r[1] == 2 else "" for r in rows]
        if fmt == "otf2":
            res, step = rng.choice([(10**9, 1), (10**9, 1000), (10**6, 1), (2 * 10**9, 1), (4 * 10**9, 3), (10**3, 2)])
            if unit:
                res, step = 10**9, unit
            t0, back = rng.choice([0, 1, 1000, 10**9]), rng.choice([None, None, 0, 1, 17])
            if back is not None and t0 == 0 and rows[0][3] == 0:
                back = 0
            first = t0 + step * rows[0][3]
            off = first if back is None else max(0, first - back)
            via.update(res=res, step=step, t0=t0, off=off, back=back is not None)
            f = gamma.Fraction(10**9, res)
            conc.update(base=float((t0 - off) * f), unit=float(step * f), float=True)
            ls = gamma.locations(rng, nq, dense=True)
            ps = sorted({p for p, _ in ls})
            # threads of a process are numbered in the order of their locations
            k, locs_ = {}, []
            for p, _ in ls:
                p = ps.index(p)
                locs_.append([p, k.setdefault(p, 0)])
                k[p] += 1
            conc["locs"] = locs_
            conc["cols"] = [dict(name=n, base=0, unit=1, float=True) for n in rng.sample(["PAPI_TOT_INS", "bytes", "L2", "x0"], len(met))]
        elif fmt == "projections":
            step = (unit or 1000) // 1000 if unit else rng.choice([1, 1, 10])
            base = 0 if unit else rng.choice([0, 77991])
            pes = list(range(nq))
            rng.shuffle(pes)
            conc["locs"] = [[p, None] for p in pes]
            via.update(step=step, base=base)
            conc.update(base=1000 * base, unit=1000 * step)
            conc["names"].append("Computation")
            w = len(conc["names"])
            last = rows[-1][3] + 1
            rows = ([[q, 0, w, k] for k, q in enumerate(rng.sample(range(1, nq + 1), nq))] + [[r[0], r[1], r[2], r[3] + nq] for r in rows]
                    + [[q, 1, w, last + nq + k] for k, q in enumerate(rng.sample(range(1, nq + 1), nq))])
        elif fmt == "hpctoolkit":
            conc["names"].append("main thread")
            w = len(conc["names"])
            last = rows[-1][3] + 1
            rows = ([[q, 0, w, k] for k, q in enumerate(rng.sample(range(1, nq + 1), nq))] + [[r[0], r[1], r[2], r[3] + nq] for r in rows]
                    + [[q, 1, w, last + nq + k] for k, q in enumerate(rng.sample(range(1, nq + 1), nq))])
            conc["locs"] = gamma.locations(rng, nq)
            conc.update(base=0, unit=unit or rng.choice([1, 10, 1000]))
            via["begin"] = rng.choice([0, 5, 1_650_000_000_000_000_000])
        else:
            conc.update(base=0 if unit else rng.choice([0, 3, 10**9]), unit=unit or rng.choice([1, 7, 1000]))
            conc["locs"] = gamma.locations(rng, nq)
            via["pids"] = rng.sample(range(2, 70000), 300)
        conc["types"] = ["Instant" if r[1] == 2 else "" for r in rows]
    if locs:
        conc["locs"] = locs
    return dict(rows=rows, met=[list(m) for m in met], conc=conc, via=via)


# ---------------------------------------------------------------- writing and reading

def make_trace(case):
    tmp = work.place()
    try:
        return globals()["via_" + case["via"]["fmt"]](case, os.path.join(tmp, "recording"))
    finally:
        shutil.rmtree(tmp)


def options(case, workers=True):
    kw = {}
    if case["via"]["cct"]:
        kw["create_cct"] = True
    if workers:
        kw["num_processes"] = case["via"]["workers"]
    return kw


def via_csv(case, path):
    from pipit.trace import Trace

    df = gamma.frame(case)
    via = case["via"]
    if via["blocks"]:
        order = sorted(range(len(df)), key=lambda i: case["rows"][i][0])
        df = df.iloc[order]
    if via["columns"]:
        df = df[df.columns[::-1]]
    df.to_csv(path, index=False, quoting=csv.QUOTE_MINIMAL)
    return Trace.from_csv(path)


def otf2_locations(case):
    """Model locations in the order in which the archive numbers them: by process, and within it by thread."""
    locs = case["conc"]["locs"]
    return sorted(range(len(locs)), key=lambda q: tuple(locs[q]))


def via_otf2(case, path):
    import otf2
    from otf2.enums import CollectiveOp, LocationType, MeasurementMode, MetricOccurrence, RecorderKind, Type
    from pipit.trace import Trace

    via, conc = case["via"], case["conc"]
    w = otf2.writer.Writer(path, timer_resolution=via["res"])
    try:
        D = w.definitions
        root = D.system_tree_node("machine")
        regs = [D.region(n) for n in conc["names"]]
        order = otf2_locations(case)
        groups = [D.location_group("process %d" % p, system_tree_parent=root) for p in range(max(l[0] for l in conc["locs"]) + 1)]
        out = {}
        for q in order:
            loc = D.location("location %d" % q, group=groups[conc["locs"][q][0]], type=LocationType.CPU_THREAD)
            out[q + 1] = w.event_writer_from_location(loc)
        members = [D.metric_member(c["name"], value_type=Type.DOUBLE) for c in conc["cols"]]
        classes = {}
        for i, (q, ty, n, t) in enumerate(case["rows"]):
            ticks = via["t0"] + via["step"] * t
            have = [k for k in range(len(members)) if case["met"][k][i] != []]
            if have:
                key = tuple(have)
                if key not in classes:
                    classes[key] = D.metric_class(tuple(members[k] for k in have), occurrence=MetricOccurrence.SYNCHRONOUS_STRICT, recorder_kind=RecorderKind.CPU)
                out[q].metric(ticks, classes[key], [float(case["met"][k][i][0]) for k in have])
            if ty == 0:
                out[q].enter(ticks, regs[n - 1])
            elif ty == 1:
                out[q].leave(ticks, regs[n - 1])
            else:
                name = conc["names"][n - 1]
                if name == "MeasurementOnOff":
                    out[q].measurement_on_off(ticks, MeasurementMode.ON)
                elif name == "OmpFork":
                    out[q].omp_fork(ticks, 3)
                elif name == "MpiCollectiveBegin":
                    out[q].mpi_collective_begin(ticks)
                else:
                    out[q].program_end(ticks, 0)
        if via["back"] and w._first_timestamp is not None:
            w._first_timestamp = via["off"]
    finally:
        w.close()
    return Trace.from_otf2(path, **options(case))


def via_projections(case, path):
    from pipit.trace import Trace

    via, conc = case["via"], case["conc"]
    kinds = {"Enque": 4, "Deque": 5, "Message Receive": 10}
    entries = [n for n in conc["names"] if n not in kinds and n != "Computation"]
    rng = random.Random(conc["seed"])
    ids = rng.sample(range(0, 300), len(entries))
    logs = [[] for _ in conc["locs"]]
    for q, ty, n, t in case["rows"]:
        name = conc["names"][n - 1]
        kind = kinds[name] if ty == 2 else (6, 7)[ty] if name == "Computation" else (2, 3)[ty]
        logs[conc["locs"][q - 1][0]].append([kind, t, entries.index(name) + 1 if kind in (2, 3) else 0, rng.randint(1, 3), t])
    case2 = dict(logs=logs, conc=dict(base=via["base"], step=via["step"], entries=entries, ids=ids, dims=[rng.choice([-1, 1, 2]) for _ in entries], events=[], eids=[], stats=["s"], sids=[0],
                                      papi=0, name="a.out"))
    prjgen.write(case2, path)
    return Trace.from_projections(path, **options(case))


def via_hpctoolkit(case, path):
    from pipit.trace import Trace

    via, conc = case["via"], case["conc"]
    entry = len(conc["names"])
    ctxs, fns, of = [[0, 4, 1, 0, -1]], [], {}
    children = {}
    samples = [[] for _ in conc["locs"]]
    stacks = [[0] for _ in conc["locs"]]
    for q, ty, n, t in case["rows"]:
        s = stacks[q - 1]
        if ty == 1:
            s.pop()
        elif n == entry:
            s.append(1)
        else:
            if n not in of:
                fns.append([len(fns) + 1, 1, len(fns) + 1])
                of[n] = len(fns)
            key = s[-1], n
            if key not in children:
                ctxs.append([s[-1], 0, of[n], 0, -1])
                children[key] = len(ctxs)
            s.append(children[key])
        samples[q - 1].append([t, s[-1]])
    rng = random.Random(conc["seed"])
    c2 = hpctgen.concretize(rng, ctxs, fns, samples)
    named = sorted(of, key=lambda n: of[n])
    hits = [dict(RANK=p) if th is None else dict(RANK=p, THREAD=th) for p, th in conc["locs"]]
    c2.update(names=[conc["names"][n - 1] for n in named], entries=["main thread"], hits=hits, base=via["begin"], unit=conc["unit"], lines=[[i + 1, 10 * i + 3] for i in range(len(fns))])
    hpctgen.write(dict(ctxs=ctxs, fns=fns, lines=samples, finish=case["rows"][-1][3] + 1, conc=c2), path)
    return Trace.from_hpctoolkit(path)


def via_nsight(case, path):
    from pipit.trace import Trace

    via, conc = case["via"], case["conc"]
    rng = random.Random(conc["seed"])
    locs = via.setdefault("locs", conc["locs"])
    pids = {p: via["pids"][k] for k, p in enumerate(sorted({p for p, _ in locs}))}
    threads = sorted({th for _, th in locs if th is not None})
    tids = [pids[p] if th is None else 100000 + via["pids"][100 + threads.index(th)] for p, th in locs]
    ranges, open_, at = [], {}, {}
    for q, ty, n, t in case["rows"]:
        s = open_.setdefault(q, [])
        if ty == 0:
            s.append(len(ranges))
            ranges.append([q, n, t, None])
        else:
            ranges[s.pop()][3] = t
    order = list(range(len(ranges)))
    if via["workers"] > 1:
        rng.shuffle(order)
    with open(path, "w", newline="", encoding="utf-8") as f:
        w = csv.writer(f)
        w.writerow(["Start (ns)", "End (ns)", "Name", "PID", "TID", "RangeId", "ParentId", "RangeStack"])
        for i in order:
            q, n, s, e = ranges[i]
            at[i + 1] = q
            w.writerow([conc["base"] + conc["unit"] * s, conc["base"] + conc["unit"] * e, conc["names"][n - 1], pids[locs[q - 1][0]], tids[q - 1], i + 1, "", ":%d" % (i + 1)])
    t = Trace.from_nsight(path, **options(case, False))
    # processes and threads are known by the numbers the reader has given them
    df = t.events
    ids = df["RangeId"].tolist()
    ps = df["Process"].tolist()
    ts = df["Thread"].tolist() if "Thread" in df.columns else [None] * len(df)
    found = {}
    for r, p, th in zip(ids, ps, ts):
        found.setdefault(at.get(int(r)), [int(p), None if th is None else int(th)])
    conc["locs"] = [found.get(q + 1, [-1, None]) for q in range(len(locs))]
    return t


# ---------------------------------------------------------------- messages (of comm.py's cases), in OTF2 archives

ELSE = ["MpiIsendComplete", "MpiIrecvRequest", "MpiCollectiveBegin", "MeasurementOnOff"]


def messages(rng, case):
    """Makes an exchange one that an OTF2 archive holds."""
    conc = case["conc"]
    conc["names"] = [n if r[1] != 5 or n == "foo" else rng.choice(ELSE) for r, n in zip(case["rows"], conc["names"])]
    t0, res = rng.choice([0, 17, 10**9]), rng.choice([10**9, 10**6, 2 * 10**9])
    first = min([r[4] for r in case["rows"]], default=0)
    conc.update(unit=float(Fraction(10**9, res)), base=float(-first * Fraction(10**9, res)), float=True)
    case["via"] = dict(fmt="otf2 messages", res=res, t0=t0, cct=False, workers=rng.choice([1, 1, 3]))


def make_exchange(case):
    tmp = work.place()
    try:
        return via_messages(case, os.path.join(tmp, "recording"))
    finally:
        shutil.rmtree(tmp)


def via_messages(case, path):
    import otf2
    from otf2.enums import GroupType, LocationType, MeasurementMode, Paradigm
    from pipit.trace import Trace

    via, conc = case["via"], case["conc"]
    w = otf2.writer.Writer(path, timer_resolution=via["res"])
    try:
        D = w.definitions
        root = D.system_tree_node("machine")
        foo = D.region("foo")
        locs = [D.location("location %d" % p, group=D.location_group("process %d" % p, system_tree_parent=root), type=LocationType.CPU_THREAD) for p in range(conc["procs"])]
        D.group("world", group_type=GroupType.COMM_LOCATIONS, paradigm=Paradigm.MPI, members=tuple(locs))
        comm = D.comm("comm", group=D.group("ranks", group_type=GroupType.COMM_GROUP, paradigm=Paradigm.MPI, members=tuple(range(len(locs)))))
        out = [w.event_writer_from_location(x) for x in locs]
        for i, (p, kind, other, size, t) in enumerate(case["rows"]):
            e, t = out[p], via["t0"] + t
            size *= conc["sunit"]
            if kind == 1:
                e.mpi_send(t, other, comm, 1, size)
            elif kind == 2:
                e.mpi_isend(t, other, comm, 1, size, i)
            elif kind == 3:
                e.mpi_recv(t, other, comm, 1, size)
            elif kind == 4:
                e.mpi_irecv(t, other, comm, 1, size, i)
            elif conc["names"][i] == "foo":
                e.enter(t, foo)
            elif conc["names"][i] == "MpiIsendComplete":
                e.mpi_isend_complete(t, i)
            elif conc["names"][i] == "MpiIrecvRequest":
                e.mpi_irecv_request(t, i)
            elif conc["names"][i] == "MpiCollectiveBegin":
                e.mpi_collective_begin(t)
            else:
                e.measurement_on_off(t, MeasurementMode.ON)
    finally:
        w.close()
    return Trace.from_otf2(path, **options(case))

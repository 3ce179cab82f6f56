"""Writing OTF2 archives from recorded events, and telling what was read from them.

An archive case:  arch  [{proc, cpu, recs: [[time, kind, what, detail, [[metric, value], ..]], ..]}, ..]
                  conc  how to make it concrete (see `concretize`)
"""
import os
from fractions import Fraction

from . import gamma, work

KINDS = ["MpiSend", "MpiRecv", "MpiIsend", "MpiIrecv", "OmpFork", "MeasurementOnOff", "MpiCollectiveEnd", "MpiCollectiveBegin", "ParameterInt", "ProgramEnd"]
DETAILS = 3


def concretize(rng, arch, res=None):
    regions = max([r[2] for a in arch for r in a["recs"] if r[1] < 2], default=1)
    metrics = max([m for a in arch for r in a["recs"] for m, v in r[4]], default=1)
    for a in arch:
        for r in a["recs"]:
            if r[1] < 3:
                r[3] = rng.randint(1, DETAILS)
    n, procs = len(arch), max([a["proc"] for a in arch], default=1)
    nums, unit, bases, pids = list(range(n)), 1, [0] * procs, list(range(procs))
    style = rng.choice(["plain", "plain", "any order", "gaps", "rank below thread", "processes"])
    if style == "any order":
        rng.shuffle(nums)
    elif style == "gaps":
        nums = rng.sample(range(3 * n + 2), n)
    elif style == "rank below thread":
        # a process's locations at rank, rank + 2^32, rank + 2 * 2^32, ...
        unit, bases, seen = 2**32, list(range(procs)), {}
        for i, a in enumerate(arch):
            nums[i] = seen[a["proc"]] = seen.get(a["proc"], -1) + 1
    if style in ("gaps", "processes"):
        pids = rng.sample(range(2 * procs + 1), procs)
    for a, k in zip(arch, nums):
        a["num"] = k
    rids = list(range(regions)) if rng.random() < 0.5 else rng.sample(range(2 * regions + 1), regions)
    res = res or rng.choice([10**9, 10**9, 10**9, 10**6, 10**3, 1, 2 * 10**9, 3 * 10**9, 2_500_000_000, 7])
    return dict(res=res, t0=rng.choice([0, 1, 1000, 10**6, 10**12]), step=rng.choice([1, 1, 2, 1000]),
                back=rng.choice([None, None, 0, 1, 17]), regions=gamma.names(rng, regions),
                metrics=rng.sample(["PAPI_TOT_INS", "PAPI_L2_DCM", "time used", "a", "b", "bytes", "power (W)", "x0", "Thread count", "m9", "m10", "m11", "m12", "m13"], metrics),
                mtypes=[rng.choice(["DOUBLE", "INT64", "UINT64"]) for _ in range(metrics)], base=rng.choice([0, 0, 1, 100, 10**9]),
                unit=unit, bases=bases, pids=pids, rids=rids,
                mids=list(range(metrics)) if rng.random() < 0.5 else rng.sample(range(3 * metrics + 8), metrics), create_cct=rng.random() < 0.2)


def ticks(conc, t):
    return conc["t0"] + conc["step"] * t


def offset(case):
    conc = case["conc"]
    first = min([ticks(conc, r[0]) for a in case["arch"] for r in a["recs"]], default=0)
    return first if conc["back"] is None else max(0, first - conc["back"])


def kind_args(i, d, defs):
    """Arguments of an event of kind i and detail d, and the attributes they are read as."""
    k = KINDS[i - 1]
    comm, comms, par = defs["comm"], "Comm 0", defs["par"]
    if k in ("MpiSend", "MpiRecv", "MpiIsend", "MpiIrecv"):
        other = "receiver" if k in ("MpiSend", "MpiIsend") else "sender"
        a, e = [d - 1, comm, 7 * d, 1000 * d], {other: d - 1, "communicator": comms, "msg_tag": 7 * d, "msg_length": 1000 * d}
        if k in ("MpiIsend", "MpiIrecv"):
            a.append(d + 40)
            e["request_id"] = d + 40
        return a, e
    if k == "OmpFork":
        return [d], {"number_of_requested_threads": d}
    if k == "MeasurementOnOff":
        from otf2.enums import MeasurementMode
        m = [MeasurementMode.ON, MeasurementMode.OFF][d % 2]
        return [m], {"measurement_mode": str(m)}
    if k == "MpiCollectiveBegin":
        return [], {}
    if k == "MpiCollectiveEnd":
        from otf2.enums import CollectiveOp
        return [CollectiveOp.BARRIER, comm, d, 10 * d, 20 * d], {"collective_op": str(CollectiveOp.BARRIER), "communicator": comms, "root": d,
                                                                "size_sent": 10 * d, "size_received": 20 * d}
    if k == "ParameterInt":
        return [par, d - 2], {"parameter": "Parameter 0", "value": d - 2}
    if k == "ProgramEnd":
        return [d], {"exit_status": d}


def more(d, defs):
    """Further attributes of an event: written, read"""
    if d == 2:
        return {defs["attrs"][0]: "text"}, {"attributes": {"Attribute 0": "text"}}
    if d == 3:
        return {defs["attrs"][0]: "", defs["attrs"][1]: 5}, {"attributes": {"Attribute 0": "", "Attribute 1": 5}}
    return None, {}


def value(case, m, v):
    return case["conc"]["base"] + 3 * v + m


def numbered(registry, ref, make):
    """Makes a definition with the number given"""
    registry._ref = ref - 1
    return make()


def write(case, path):
    """Writes the archive; returns the attributes expected of each (kind, what, detail)."""
    import otf2
    from otf2.enums import LocationType, MetricOccurrence, RecorderKind, Type, ParameterType, GroupType, Paradigm

    conc = case["conc"]
    expected = {}
    tr = otf2.writer.Writer(path, timer_resolution=conc["res"])
    try:
        D = tr.definitions
        root = D.system_tree_node("machine")
        defs = dict(attrs=[D.attribute("first", description="", type=Type.STRING), D.attribute("second", description="", type=Type.INT64)],
                    par=D.parameter("par", parameter_type=ParameterType.INT64))
        regs = [numbered(D._regions, r, lambda: D.region(n)) for r, n in zip(conc["rids"], conc["regions"])]
        groups = [numbered(D._location_groups, p, lambda: D.location_group("process %d" % p, system_tree_parent=root)) for p in conc["pids"]]
        locs = [numbered(D._locations, conc["unit"] * a["num"] + conc["bases"][a["proc"] - 1],
                         lambda: D.location("location %d" % i, group=groups[a["proc"] - 1], type=LocationType.CPU_THREAD if a["cpu"] else LocationType.ACCELERATOR_STREAM))
                for i, a in enumerate(case["arch"])]
        world = D.group("world", group_type=GroupType.COMM_LOCATIONS, paradigm=Paradigm.MPI, members=tuple(locs))
        ranks = D.group("ranks", group_type=GroupType.COMM_GROUP, paradigm=Paradigm.MPI, members=tuple(range(len(locs))))
        defs["comm"] = D.comm("comm", group=ranks)
        members = [numbered(D._metric_members, r, lambda: D.metric_member(n, value_type=getattr(Type, t))) for r, n, t in zip(conc["mids"], conc["metrics"], conc["mtypes"])]
        classes = {}
        for a, loc in zip(case["arch"], locs):
            w = tr.event_writer_from_location(loc)
            for t, kind, what, d, vals in a["recs"]:
                t = ticks(conc, t)
                if kind < 2:
                    extra, ex = more(d, defs)
                    (w.enter if kind == 0 else w.leave)(t, regs[what - 1], attributes=extra)
                    expected[kind, what, d] = dict({"region": "Region %d" % conc["rids"][what - 1]}, **ex) if kind == 0 else None
                elif kind == 2:
                    args, e = kind_args(what, d, defs)
                    extra, ex = more(d, defs)
                    name = "".join("_" + c.lower() if c.isupper() else c for c in KINDS[what - 1])[1:]
                    getattr(w, name)(t, *args, attributes=extra)
                    expected[kind, what, d] = dict(e, **ex)
                else:
                    key = tuple(m for m, v in vals)
                    if key not in classes:
                        if conc["mids"][0]:
                            # class numbers with gaps
                            D._metrics._ref += conc["mids"][0]
                        classes[key] = D.metric_class(tuple(members[m - 1] for m in key), occurrence=MetricOccurrence.SYNCHRONOUS_STRICT, recorder_kind=RecorderKind.CPU)
                    w.metric(t, classes[key], [value(case, m, v) for m, v in vals])
        if conc["back"] is not None and tr._first_timestamp is not None:
            tr._first_timestamp = offset(case)
    finally:
        tr.close()
    return expected


def project(case, df, expected):
    """Rows as << time, kind, what, detail, process, thread, readings >>, and about the metric columns."""
    conc = case["conc"]
    off = offset(case)
    times = {}
    for a in case["arch"]:
        for r in a["recs"]:
            times.setdefault(r[0], Fraction((ticks(conc, r[0]) - off) * 10**9, conc["res"]))
    reg = {n: i + 1 for i, n in enumerate(conc["regions"])}
    kinds = {n: i + 1 for i, n in enumerate(KINDS)}
    cols = {c: df[c].tolist() for c in df.columns}
    types = {"Enter": 0, "Leave": 1, "Instant": 2}
    order = sorted(times.items(), key=lambda x: x[1])
    import bisect
    keys = [v for _, v in order]
    rows = []
    mcols = [(m + 1, cols[n]) for m, n in enumerate(conc["metrics"]) if n in cols]
    for k in range(len(df)):
        f = gamma.frac(cols["Timestamp (ns)"][k])
        t = -1
        if f is not None and keys:
            i = bisect.bisect_left(keys, f)
            for j in (i - 1, i):
                if 0 <= j < len(keys) and abs(keys[j] - f) <= abs(keys[j]) / 10**12:
                    t = order[j][0]
        kind = types.get(cols["Event Type"][k], 3)
        what = (reg if kind < 2 else kinds).get(cols["Name"][k], 0)
        at = cols["Attributes"][k]
        detail = -1
        if kind == 1:
            detail = 0 if gamma.is_missing(at) else -1
        else:
            for d in range(1, DETAILS + 1):
                if (kind, what, d) in expected and isinstance(at, dict) and at == expected[kind, what, d]:
                    detail = d
        p, th = gamma.frac(cols["Process"][k]), gamma.frac(cols["Thread"][k])
        vals = []
        for m, c in mcols:
            if not gamma.is_missing(c[k]):
                f = gamma.frac(c[k])
                v = None if f is None else (f - conc["base"] - m) / 3
                vals.append([m, int(v) if v is not None and v.denominator == 1 and abs(v) < 10**6 else -1])
        th = None if th is None else th / conc["unit"]
        rows.append([t, kind, what, detail, conc["pids"].index(p) + 1 if p in conc["pids"] else 0,
                     int(th) if th is not None and th.denominator == 1 and th < 10**6 else -1, vals])
    import pandas as pd
    known = ["Timestamp (ns)", "Event Type", "Name", "Thread", "Process", "Attributes"]
    attached = attached_metrics(case)
    metrics = all(conc["metrics"][m - 1] in cols and pd.api.types.is_numeric_dtype(df[conc["metrics"][m - 1]]) for m in attached)
    metrics = metrics and all(c in known or c in conc["metrics"] for c in df.columns)
    columns = all(c in cols for c in known) and list(df.index) == list(range(len(df)))
    return rows, bool(columns), bool(metrics)


def attached_metrics(case):
    """Metrics with a reading directly before an event at its time"""
    out = set()
    for a in case["arch"]:
        if not a["cpu"]:
            continue
        pend = {}
        for t, kind, what, d, vals in a["recs"]:
            if kind == 3:
                for m, v in vals:
                    pend[m] = t
            else:
                out.update(m for m, x in pend.items() if x == t)
                pend = {}
    return out


def random_arch(rng, max_locs=6, max_recs=40, metrics=0, devices=True):
    nl = rng.randint(1, max_locs)
    procs = rng.randint(1, nl)
    arch = []
    alloc = [rng.randint(1, procs) for _ in range(nl)]
    if rng.random() < 0.5:
        alloc.sort()
    # processes are numbered without gaps
    seen = sorted(set(alloc))
    alloc = [seen.index(p) + 1 for p in alloc]
    classes = []
    left = list(range(1, metrics + 1))
    rng.shuffle(left)
    while left:
        n = rng.randint(1, min(3, len(left)))
        classes.append(left[:n])
        left = left[n:]
    if metrics > 1 and rng.random() < 0.2:
        classes.append(rng.sample(range(1, metrics + 1), 2))
    span = rng.choice([0, 1, 3, 10, 100])
    style = rng.choice(["all", "some", "loose"])
    for i in range(nl):
        recs = []
        n = rng.choice([0, 1, 2, max_recs // 4, max_recs]) if rng.random() < 0.6 else rng.randint(0, max_recs)
        times = sorted(rng.randint(0, span) for _ in range(n))
        stack = []
        for t in times:
            use = [c for c in classes if rng.random() < {"all": 1, "some": 0.5, "loose": 0.4}[style]] if metrics else []
            rng.shuffle(use)
            for c in use:
                recs.append([t, 3, 0, 0, [[m, rng.randint(0, 50)] for m in c]])
            if style == "loose" and rng.random() < 0.3:
                continue
            x = rng.random()
            if x < 0.45 or (x < 0.8 and not stack):
                w = rng.randint(1, 4)
                stack.append(w)
                recs.append([t, 0, w, 1, []])
            elif x < 0.8:
                recs.append([t, 1, stack.pop(), 1, []])
            elif x < 0.84:
                recs.append([t, 1, rng.randint(1, 4), 1, []])
            else:
                recs.append([t, 2, rng.randint(1, len(KINDS)), 1, []])
        arch.append(dict(proc=alloc[i], cpu=not (devices and rng.random() < 0.1), recs=recs))
    if not any(a["cpu"] for a in arch):
        arch[0]["cpu"] = True
    return arch


def read(case, path, workers=1, create_cct=False):
    from pipit.trace import Trace

    kw = dict(num_processes=workers)
    if create_cct:
        kw["create_cct"] = True
    return Trace.from_otf2(path, **kw)


def scratch():
    return os.path.join(work.place(), "archive")

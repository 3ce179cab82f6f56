"""Common to the communication analyses (C11, C12)."""
import random

from .. import gamma, tlc

KIND = {1: "MpiSend", 2: "MpiIsend", 3: "MpiRecv", 4: "MpiIrecv"}
OTHERS = ["MpiIsendComplete", "MpiIrecvRequest", "MpiCollectiveEnd", "MPI_Send", "ThreadFork", "mpisend", "MpiSendrecv", "foo", "Metric"]
ASSUMPTIONS = ["processes are numbered from zero, as the code indexes its matrix by process", "receivers are among the recorded processes",
               "sums stay below 2^53"]


def design(tier):
    inv = ["Conservation", "MatrixRight", "HistogramsRight"]
    must = ["DoSend", "DoReceive", "DoElse", "DoStart", "DoCount"]
    q = [dict(name="2 processes", consts=dict(MaxRows=3, NProc=2, Sizes={1, 4}, MaxStep=2, Ask="all"))]
    if tier == "thorough":
        q = [dict(name="2 processes", consts=dict(MaxRows=4, NProc=2, Sizes={1, 4}, MaxStep=1, Ask="all")),
             dict(name="3 processes", consts=dict(MaxRows=3, NProc=3, Sizes={0, 2, 3}, MaxStep=2, Ask="all"))]
    return [dict(module="MC_Comm", invariants=inv, must=must, workers=8, timeout=3000, **d) for d in q]


def network(rng, n, np_):
    """A random exchange of messages."""
    rows, flying, t = [], [], 0
    sizes = rng.choice([[0, 1, 2], [8], list(range(0, 65)), [1, 1024, 4096, 65536], [2**k for k in range(12)]])
    step = rng.choice([1, 1, 3, 10])
    used = rng.sample(range(np_), rng.randint(1, np_))
    while len(rows) < n:
        t += 0 if rng.random() < 0.3 else rng.randint(1, step)
        k = rng.random()
        if k < 0.45:
            p, r, s = rng.choice(used), rng.randrange(np_), rng.choice(sizes)
            rows.append([p, rng.choice([1, 2]), r, s, t])
            flying.append([p, r, s])
        elif k < 0.75 and flying:
            p, r, s = flying.pop(rng.randrange(len(flying)))
            rows.append([r, rng.choice([3, 4]), p, s, t])
        else:
            rows.append([rng.randrange(np_), 5, 0, 0, t])
    return rows


def concretize(rng, rows, np_):
    base, unit, fl = rng.choice([(0, 1, False), (0, 1000, False), (17, 1, False), (0, 1, True), (100, 0.5, True), (0, 2048, True)])
    exp = [rng.choice(OTHERS) if r[1] == 5 else "" for r in rows]
    # rows that are no messages: processes without one are in the trace by an enter and a leave
    quiet = [p for p in range(np_) if p not in {r[0] for r in rows}]
    total = sum(r[3] for r in rows)
    sunit = rng.choice([1, 1, 1, 3, 2**20 + 1, 2**24 + 1, 2**31 + 11, 10**12 + 39])
    return dict(procs=np_, sunit=sunit if sunit * total < 2**44 else 1, base=base, unit=unit, float=fl, names=exp, quiet=quiet, thread=rng.random() < 0.4, cat=rng.random() < 0.6,
                oddity=rng.choice([None, {}, {"msg_length": 7, "receiver": 0}]))


def cases(tier, seed, rep, prep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    plans = [dict(MaxRows=2, NProc=2, Sizes={1, 4}, MaxStep=1, Ask="none"), dict(MaxRows=3, NProc=2, Sizes={3}, MaxStep=1, Ask="none")]
    if tier == "thorough":
        plans += [dict(MaxRows=3, NProc=2, Sizes={1, 3}, MaxStep=2, Ask="none"), dict(MaxRows=3, NProc=3, Sizes={1}, MaxStep=1, Ask="none")]
    small = []
    for c in plans:
        got, r = tlc.generate("MC_Comm", c)
        rep.add_tlc("generation", r)
        if tier == "quick" and len(got) > 500:
            got = rng.sample(got, 500)
        small += [dict(rows=g, conc=concretize(rng, g, c["NProc"])) for g in got]
    rnd = []
    for k in range(400 if tier == "quick" else 8000):
        np_ = rng.choice([1, 2, 3, 4, 7, 12])
        n = rng.randint(1, 40) if k % 10 else 200
        rows = network(rng, n, np_)
        rnd.append(dict(rows=rows, conc=concretize(rng, rows, np_)))
    for c in small + rnd:
        add_quiet(c)
        prep(rng, c)
    return [("TLC, all small exchanges", small), ("random exchanges", rnd)]


def add_quiet(c):
    """Processes that exchange nothing are recorded, too."""
    t = c["rows"][-1][4] if c["rows"] else 0
    for p in c["conc"]["quiet"]:
        c["rows"].append([p, 5, 0, 0, t])
        c["conc"]["names"].append("foo")


def make_trace(case):
    if "via" in case:
        from .. import formats
        return formats.make_exchange(case)
    import numpy as np
    import pandas as pd
    from pipit.trace import Trace

    conc, rows = case["conc"], case["rows"]
    ts = [conc["base"] + conc["unit"] * r[4] for r in rows]
    attrs = []
    for r in rows:
        if r[1] in (1, 2):
            attrs.append({"communicator": "w", "receiver": r[2], "msg_length": r[3] * conc["sunit"], "msg_tag": 1})
        elif r[1] in (3, 4):
            attrs.append({"sender": r[2], "msg_length": r[3] * conc["sunit"], "msg_tag": 1})
        else:
            attrs.append(conc["oddity"])
    d = {"Timestamp (ns)": np.array(ts, dtype="float64" if conc["float"] else "int64"),
         "Event Type": ["Enter" if r[1] == 5 and conc["names"][i] == "foo" else "Instant" for i, r in enumerate(rows)],
         "Name": [KIND.get(r[1]) or conc["names"][i] for i, r in enumerate(rows)]}
    if conc["thread"]:
        d["Thread"] = np.array([(i * 7) % 3 for i in range(len(rows))], dtype="int64")
    d["Process"] = np.array([r[0] for r in rows], dtype="int64")
    d["Attributes"] = pd.Series(attrs, dtype=object)
    df = pd.DataFrame(d)
    if conc["cat"]:
        df = df.astype({"Event Type": "category", "Name": "category", "Process": "category"})
    return Trace(None, df)


def kept(t, case):
    """The recorded columns are as they were."""
    df = make_trace(case).events
    return bool(list(t.events.columns) == list(df.columns) and t.events.equals(df))


def weight(rec):
    return (1 + len(rec["rows"])) * (20 + len(rec["rows"]) // 4)

"""Chrome Tracing export."""
import json
import os
import random

from .. import gamma, tlc, work

ASSUMPTIONS = ["numbers in attributes have at most ten decimals, as the JSON writer of pandas keeps no more",
               "no event type is named as one of the phases B, E and i"]
ATTRS = [None, {}, {"region": "main"}, {"msg_length": 8, "receiver": 1}, {"a": [1, 2, {"b": None}]}, {"x": 1.5, "y": "\"q\" \\ \n é"}, {"k": True}]


def design(tier):
    return [dict(name="all small traces", module="MC_Export",
                 consts=dict(MaxRows=2 if tier == "quick" else 3, Times={0, 4, 6, 7, 12} if tier == "quick" else {3, 6, 7}, Past=4, Types={0, 1, 2, 5}),
                 invariants=["OneRecordPerEvent", "Faithful", "OrderKept", "Balance"], properties=["Grows"], must=["Write", "Close"], workers=8, timeout=3000)]


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    got, r = tlc.generate("MC_Export", dict(MaxRows=2, Times={0, 2}, Past=0, Types={0, 1, 2, 5}))
    rep.add_tlc("generation", r)
    if tier == "quick":
        got = [g for g in got if len(g) < 2] + rng.sample([g for g in got if len(g) == 2], 300)
    small = [concretize(rng, [list(x) for x in g]) for g in got]
    rnd = []
    for k in range(400 if tier == "quick" else 8000):
        rows = []
        t = rng.choice([0, 0, 5, -3000])
        for r in gamma.random_rows(rng, max_rows=60 if k % 10 else 200):
            t += rng.choice([0, 0, 1, 1, 333, 999, 1000, 1001, 123456])
            rows.append([{0: 0, 1: 1}.get(r[1], rng.choice([2, 2, 5, 6])), r[2], t, r[0] - 1, -1, 0])
        if rng.random() < 0.1:
            rng.shuffle(rows)
        rnd.append(concretize(rng, rows))
    return [("TLC, all traces of two rows", small), ("random recorder", rnd)]


def concretize(rng, rows):
    nn = max([r[1] for r in rows], default=1)
    threads, attrs = rng.random() < 0.5, rng.random() < 0.5
    for r in rows:
        if threads:
            r[4] = rng.randint(0, 3)
        if attrs:
            r[5] = rng.randint(0, len(ATTRS) - 1)
    # base is a whole number of microseconds
    unit, per, fl = rng.choice([(1, 1000, False), (1, 1000, True), (0.5, 2000, True), (0.25, 4000, True), (1000, 1, False), (100, 10, False), (500, 2, True)])
    base = rng.choice([0, 0, 10**6, 10**9, 10**12, 10**15, 10**18 if not fl else 0])
    pool = gamma.names(rng, nn)
    return dict(rows=rows, per=per, unit=unit, base=base, float=fl, names=pool, threads=threads, attrs=attrs,
                types=rng.sample(["Loop", "Metric", "enter", "Enter2", "5", "X", "Leave!"], 7), procs=rng.choice([[0, 1] + list(range(2, 20)), [7, 3] + list(range(100, 120))]),
                cat=[rng.random() < 0.6 for _ in range(4)], derived=rng.random() < 0.3, dest=rng.choice(["text", "text", "file", "file"]))


def frame(case):
    import numpy as np
    import pandas as pd

    rows = case["rows"]
    kind = {0: "Enter", 1: "Leave", 2: "Instant"}
    d = {"Timestamp (ns)": np.array([case["base"] + case["unit"] * r[2] for r in rows], dtype="float64" if case["float"] else "int64"),
         "Event Type": pd.Series([kind.get(r[0]) or case["types"][r[0]] for r in rows], dtype=object),
         "Name": pd.Series([case["names"][r[1] - 1] for r in rows], dtype=object)}
    if case["threads"]:
        d["Thread"] = np.array([r[4] for r in rows], dtype="int64")
    d["Process"] = np.array([case["procs"][r[3]] for r in rows], dtype="int64")
    if case["attrs"]:
        d["Attributes"] = pd.Series([ATTRS[r[5]] for r in rows], dtype=object)
    df = pd.DataFrame(d)
    for k, c in zip(case["cat"], ["Event Type", "Name", "Process", "Thread"]):
        if k and c in df.columns:
            df[c] = df[c].astype("category")
    return df


def as_read(case, df):
    """The case of a trace that was read: its table is what the export is judged by (the table itself is judged elsewhere)."""
    times = df["Timestamp (ns)"].tolist()
    base = int(min(times)) // 1000 * 1000
    names, procs, types = sorted(set(df["Name"])), sorted(set(df["Process"])), sorted(set(df["Event Type"]) - {"Enter", "Leave", "Instant"})
    tids = sorted(set(df["Thread"])) if "Thread" in df.columns else None
    attrs, rows = ["null"], []
    for i in range(len(df)):
        r = df.iloc[i]
        a = 0
        if "Attributes" in df.columns:
            a = json.dumps(r["Attributes"], sort_keys=True, default=lambda v: v.item())
            if a not in attrs:
                attrs.append(a)
            a = attrs.index(a)
        rows.append([{"Enter": 0, "Leave": 1, "Instant": 2}.get(r["Event Type"]) if r["Event Type"] not in types else 5 + types.index(r["Event Type"]),
                     names.index(r["Name"]) + 1, int(r["Timestamp (ns)"] // 1) - base, procs.index(r["Process"]), tids.index(r["Thread"]) if tids else -1, a])
    assert all(r[2] < 2**30 for r in rows)
    return dict(rows=rows, per=1000, base=base, names=names, threads=bool(tids), attrs=[json.loads(a) for a in attrs] if "Attributes" in df.columns else [],
                types=[str(k) + "?" for k in range(5)] + types, procs=procs, derived=case["derived"], dest=case["dest"], **(dict(tids=tids) if tids else {})), df.copy(deep=True)


def conf(case):
    return ("Conf_Export", ())


def weight(rec):
    return len(rec["rows"]) * (10 + len(rec["rows"]))


def observe(case):
    from pipit.trace import Trace

    if "via" in case:
        t = gamma.make_trace(case)
        case, table = as_read(case, t.events)
        attrs = case["attrs"]
    else:
        t = Trace(None, frame(case))
        table, attrs = frame(case), ATTRS
    if case["derived"] and case["rows"]:
        t.create_cct()
        t.calc_exc_metrics()
    before = t.events.copy(deep=True)
    if case["dest"] == "text":
        out = t.to_chrome()
        destination = isinstance(out, str)
    else:
        tmp = work.place()
        path = os.path.join(tmp, "out.json")
        try:
            t.to_chrome(path)
            destination = os.listdir(tmp) == ["out.json"]
            out = open(path, encoding="utf-8").read()
            destination = destination and json.loads(out) == json.loads(t.to_chrome())
        finally:
            for f in os.listdir(tmp):
                os.unlink(os.path.join(tmp, f))
            os.rmdir(tmp)
    import pandas as pd

    recorded = list(table.columns)
    kept = list(t.events.columns) == list(before.columns) and t.events[recorded].equals(before[recorded])
    kept = kept and (not case["rows"] or isinstance(t.events.index, pd.RangeIndex) or list(t.events.index) == list(before.index))
    nm = {n: i + 1 for i, n in reversed(list(enumerate(case["names"])))}
    pr = {p: i for i, p in enumerate(case["procs"])}
    doc = []
    recs = json.loads(out)
    assert isinstance(recs, list)
    for x, row in zip(recs, case["rows"] + [None] * len(recs)):
        ph = x.get("ph")
        if ph in case["types"]:
            ph = str(case["types"].index(ph))
        ts = x.get("ts")
        ts = ts - case["base"] // 1000 if type(ts) is int else 2**29
        if not -2**30 < ts < 2**30:
            ts = 2**29
        args = -1
        if not case["attrs"]:
            args = 0 if "args" not in x else -2
        elif row is not None and "args" in x:
            got = json.dumps(x["args"], sort_keys=True)
            same = [i for i, a in enumerate(attrs) if json.dumps(a, sort_keys=True) == got]
            args = same[0] if same else -1
        tid = x.get("tid", -1)
        if "tids" in case and "tid" in x:
            tid = case["tids"].index(tid) if tid in case["tids"] else -5
        doc.append([str(ph), nm.get(x.get("name"), 0), ts, pr.get(x.get("pid"), -1), tid if type(tid) is int else -5, args])
    return dict(rows=case["rows"], per=case["per"], obs=dict(doc=doc, destination=bool(destination), kept=bool(kept)))


def corrupt(rec):
    if not rec["obs"]["doc"]:
        return None
    rec["obs"]["doc"][-1][2] += 1
    return rec

"""Sessions: analyses in any order on one trace."""
import hashlib
import random

from .. import gamma, tlc

ASSUMPTIONS = ["metrics other than the times are asked for only after they have been calculated, as the documentation demands",
               "results are compared as tables of exact values with their row and column order"]
OPS = ["match", "callers", "inc", "inc_time", "exc", "exc_time", "cct", "matrix", "matrix_count", "by_process", "sizes", "over_time",
       "over_time_recv", "flat", "flat_inc", "flat_per", "imbalance", "idle", "idle_other", "idle_mpi", "profile", "profile_norm", "multirun", "chrome"]


def design(tier):
    return [dict(name="sessions", module="MC_Session", consts=dict(MaxOps=2 if tier == "quick" else 3), invariants=["SameWhateverCameBefore", "ColumnsRight", "ListedOnce"],
                 properties=["ColumnsKept", "Returns"], must=["DoCall", "AddColumn", "Return", "Spoil"], workers=8, timeout=3000)]


def recording(rng):
    """A trace with calls and messages, processes from zero."""
    rows = gamma.random_rows(rng, rng.choice(["tree", "ties", "wide", "noisy", "cut", "many"]), max_rows=40)
    nq = max(r[0] for r in rows)
    met = gamma.random_met(rng, rows, rng.choice([0, 1, 1]))
    conc = gamma.concretize(rng, rows, met, dense=True, extra=False, plain_names=gamma.names(rng, 6) if rng.random() < 0.5 else
                            rng.sample(["Idle", "MPI_Wait", "MPI_Recv", "main", "foo", "bar", "MPI_Waitall"], 6), small=True)
    np_ = 1 + max(l[0] for l in conc["locs"][:nq])
    msgs = []
    for i, r in enumerate(rows):
        k = rng.choice(["MpiSend", "MpiIsend", "MpiRecv", "MpiIrecv", ""]) if r[1] == 2 else ""
        if k:
            conc["types"][i] = "Instant"
            msgs.append([i, k, rng.randrange(np_), rng.choice([0, 8, 1024, 4096])])
    return dict(rows=rows, met=met, conc=conc, msgs=msgs)


def dense(case):
    """Every process number below the largest occurs."""
    ps = {case["conc"]["locs"][r[0] - 1][0] for r in case["rows"]}
    return ps == set(range(len(ps)))


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    got, r = tlc.generate("MC_Session", dict(MaxOps=2))
    rep.add_tlc("generation", r)
    seqs = [s + s[:1] for s in got]
    if tier == "thorough":
        three, r = tlc.generate("MC_Session", dict(MaxOps=3))
        rep.add_tlc("generation", r)
        seqs += [s + s[:1] for s in three]
    pool = []
    while len(pool) < (60 if tier == "quick" else 600):
        c = recording(rng)
        if dense(c):
            pool.append(c)
    small = [dict(rng.choice(pool), ops=s) for s in seqs]
    metric = {"match", "callers", "inc", "inc_time", "exc", "exc_time"}
    odd = []      # columns whose names look like results
    while len(odd) < 20:
        c = recording(rng)
        if dense(c) and c["met"]:
            c["conc"]["cols"][0]["name"] = rng.choice(["io.inc", "io.exc", "_io", "inc", ".exc", "time.incl", "time.excl", "Process.inc"])
            odd.append(c)
    small += [dict(rng.choice(odd), ops=s) for s in seqs if set(s) <= metric for _ in range(3)]
    long = [dict(rng.choice(pool), ops=[rng.choice(OPS) for _ in range(rng.randint(4, 9))]) for _ in range(100 if tier == "quick" else 3000)]
    return [("TLC, all short sessions", small), ("random sessions", long), ("pattern detection", [pattern(rng)])]


def pattern(rng):
    rows, t = [], 0
    for k in range(10):
        rows.append([1, 0, 1, t])
        t += 1
        for f, d in ((2, 3), (3, 5), (4, 1)):
            rows.append([1, 0, f, t])
            t += d + k % 2
            rows.append([1, 1, f, t])
            t += 1
        rows.append([1, 1, 1, t])
        t += 1
    conc = gamma.concretize(rng, rows, dense=True, threads=False, extra=False, plain_names=["loop", "a", "b", "c"])
    conc["locs"] = [[0, None]]
    return dict(rows=rows, met=[], conc=conc, msgs=[], ops=["detect", "inc", "detect", "exc", "flat", "detect"], limit=400)


def conf(case):
    return ("Conf_Session", ())


def weight(rec):
    return 50 * len(rec["steps"])


def make_trace(case):
    import pandas as pd
    from pipit.trace import Trace

    df = gamma.frame(case)
    names = df["Name"].astype(object)
    attrs = [{} for _ in range(len(df))]
    for i, k, peer, size in case["msgs"]:
        names[i] = k
        attrs[i] = {"receiver" if "Send" in k or "send" in k else "sender": peer, "msg_length": size, "communicator": "w"}
    df["Name"] = names.astype("category") if case["conc"]["cat"][1] else names
    df["Attributes"] = pd.Series(attrs, dtype=object)
    return Trace(None, df)


# ---------------------------------------------------------------- values as text

def node_text(v):
    path, k = [], 0
    while v is not None and k < 200:
        path.append("%s/%s" % (v._pipit_nid, v.level))
        v, k = v.parent, k + 1
    return "node " + " ".join(path)


def text(v):
    import numpy as np
    import pandas as pd

    from pipit.graph import Graph, Node
    if isinstance(v, pd.DataFrame):
        return "table %s\n%s\n%s" % ([text(c) for c in v.columns], [text(i) for i in v.index],
                                     "\n".join(column_text(v.iloc[:, k]) for k in range(v.shape[1])))
    if isinstance(v, pd.Series):
        return column_text(v)
    if isinstance(v, np.ndarray):
        return "array %s %s" % (v.shape, [text(x) for x in v.tolist()])
    if isinstance(v, dict):
        return "{%s}" % ", ".join("%s: %s" % (text(k), text(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return "[%s]" % ", ".join(text(x) for x in v)
    if isinstance(v, Node):
        return node_text(v)
    if isinstance(v, Graph):
        out, todo = [], list(v.roots)
        while todo and len(out) < 5000:
            n = todo.pop(0)
            out.append(node_text(n))
            todo += list(n.children)
        return "graph " + "; ".join(out)
    if gamma.is_missing(v):
        return "missing"
    if isinstance(v, str):
        return repr(v)
    f = gamma.frac(v)
    return str(f) if f is not None else repr(v)


def column_text(s):
    return "column %s %s" % (text(s.name), [text(x) for x in s.tolist()])


def table_of(df, names):
    return "\n".join(column_text(df[c]) if c in df.columns else "no " + c for c in names)


def spoil(x):
    """What a caller may do to what was returned to him."""
    import numpy as np
    import pandas as pd

    if isinstance(x, (tuple, list)):
        for y in x:
            spoil(y)
        if isinstance(x, list):
            x.clear()
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "iuf":
            x.fill(-77)
    elif isinstance(x, pd.DataFrame):
        for k in range(x.shape[1]):
            if len(x) and x.dtypes.iloc[k].kind in "iuf":
                x.iloc[:, k] = -77
        x["spoilt"] = 1


def told(x):
    """The text of a result, which is changed afterwards."""
    out = text(x)
    spoil(x)
    return out


def run(t, op, case):
    from pipit.trace import Trace

    df = lambda names: table_of(t.events, names)  # noqa: E731
    num = ["time"] + [c["name"] for c in case["conc"]["cols"]]
    if op == "match":
        t._match_events()
        return df(["_matching_event", "_matching_timestamp"])
    if op == "callers":
        t._match_caller_callee()
        return df(["_depth", "_parent", "_children"])
    if op == "inc":
        t.calc_inc_metrics()
        return df([c + ".inc" for c in num])
    if op == "inc_time":
        t.calc_inc_metrics(["Timestamp (ns)"])
        return df(["time.inc"])
    if op == "exc":
        t.calc_exc_metrics()
        return df([c + ".exc" for c in num])
    if op == "exc_time":
        t.calc_exc_metrics(["Timestamp (ns)"])
        return df(["time.exc"])
    if op == "cct":
        t.create_cct()
        return df(["Graph_Node"]) + text(t.cct)
    if op == "multirun":
        return told(Trace.multirun_analysis([t]))
    if op == "detect":
        found = t.detect_pattern("loop")
        out = text([p[["Timestamp (ns)", "Event Type", "Name"]] for p in found])
        spoil(found)
        return out
    calls = {
        "matrix": lambda: t.comm_matrix(), "matrix_count": lambda: t.comm_matrix("count"), "by_process": lambda: t.comm_by_process(),
        "sizes": lambda: t.message_histogram(bins=4), "over_time": lambda: t.comm_over_time(bins=5),
        "over_time_recv": lambda: t.comm_over_time(output="count", message_type="receive", bins=3), "flat": lambda: t.flat_profile(),
        "flat_inc": lambda: t.flat_profile(metrics=["time.inc"], groupby_column=["Name"]), "flat_per": lambda: t.flat_profile(metrics=["time.exc", "time.inc"], per_process=True),
        "imbalance": lambda: t.load_imbalance(num_processes=2), "idle": lambda: t.idle_time(["Idle", "foo"]), "idle_other": lambda: t.idle_time(["main", "MPI_Wait"]), "idle_mpi": lambda: t.idle_time(mpi_events=True),
        "profile": lambda: t.time_profile(num_bins=4), "profile_norm": lambda: t.time_profile(num_bins=3, normalized=True),
        "chrome": lambda: t.to_chrome(),
    }
    return told(calls[op]())


def outcome(t, op, case):
    try:
        return run(t, op, case)
    except Exception as e:     # an analysis that cannot work with a trace does not work with it, whatever came before
        return "raised %s" % type(e).__name__


def observe(case):
    num = {}

    def ident(s):
        return num.setdefault(hashlib.sha256(s.encode("utf-8", "surrogatepass")).hexdigest(), len(num) + 1)

    t = make_trace(case)
    names = list(t.events.columns)
    own = set(names)
    recorded = lambda: ident("%s %s\n%s" % ([text(c) for c in t.events.columns if c in own], text(list(t.events.index)), table_of(t.events, names)))  # noqa: E731
    fresh = {}
    first = recorded()
    steps, order = [], []
    for op in case["ops"]:
        if op not in fresh:
            fresh[op] = ident(outcome(make_trace(case), op, case))
        result = ident(outcome(t, op, case))
        steps.append(dict(result=result, recorded=recorded(),
                          cols=[[c, ident(column_text(t.events[c]))] for c in t.events.columns if c not in own],
                          lists=[dict(listed=list(l), there=[c for c in t.events.columns if c not in own and c.endswith(e)])
                                 for l, e in ((t.inc_metrics, ".inc"), (t.exc_metrics, ".exc"))]))
        order.append(fresh[op])
    return dict(recorded=first, fresh=order, steps=steps)


def corrupt(rec):
    rec["steps"][-1]["result"] += 1000
    return rec

"""Making model traces concrete and projecting real tables back (gamma and alpha).

A trace case is a dict:
  rows  [[location, type (0 enter, 1 leave, 2 other), name, time], ...] in recorded order, numbered from 1
  met   extra numeric columns: list of lists of cells ([] missing, [n])
  conc  how to make it concrete (see `concretize`)
"""
import random
from fractions import Fraction

OFF = [0, 0, 0]  # a cell that is no model value

PLAIN = ["main", "foo", "bar", "baz", "MPI_Send", "MPI_Recv", "solve", "init"]
ODD = ["foo", "foo2", "fo", "operator->", "a->b", "a", "b", "b->c", "->", "Enter", "Leave", "naïve λ", "with space",
       " lead", "x" * 80, "0", "1", "None", "nan", "f(int, char*)", "Idle", "idle", "MPI_Wait", "\"q\"", "a,b", "é", "Instant",
       "time.inc", "Process", "foo.inc", "std::vector<int, std::allocator<int> >::push_back"]
OTHERS = ["Instant", "Instant", "Loop Enter", "Loop Leave", "MpiSend", "Enter2", "enter", "LEAVE", "Metric"]


def names(rng, n):
    k = rng.random()
    if k < 0.35 and n <= len(PLAIN):
        return rng.sample(PLAIN, n)
    pool = list(dict.fromkeys(ODD + PLAIN))
    if n <= len(pool):
        return rng.sample(pool, n)
    return ["f%d" % i for i in range(n)]


def locations(rng, nq, dense=False, threads=None):
    """[process, thread or None] per location"""
    use_threads = rng.random() < 0.6 if threads is None else threads
    if not use_threads:
        if dense or rng.random() < 0.4:
            ps = list(range(nq))
            rng.shuffle(ps)
        else:
            ps = rng.sample([0, 1, 2, 3, 5, 7, 8, 10, 12, 16, 31, 64, 100, 1000, 4096, 65536] + list(range(200, 240 + nq)), nq)
        return [[p, None] for p in ps]
    if not dense and nq > 1 and rng.random() < 0.15:      # numbers that are easily taken for each other
        both = rng.choice([[(1, 11), (11, 1), (1, 1), (11, 11), (111, 1), (1, 111)], [(1, 0), (0, 1000), (1, 1000), (0, 0)], [(1, 0), (0, 65536), (0, 256), (0, 2**16 + 1), (1, 1)],
                           [(1, 21), (12, 1), (2, 11), (21, 1)], [(0, 3), (1, 2), (2, 1), (3, 0)], [(2, 3), (3, 2), (1, 6), (6, 1)], [(1000000, 2), (1, 2), (1000001, 1)]])
        if nq <= len(both):
            return [list(x) for x in rng.sample(both, nq)]
    k = rng.random()
    if k < 0.3:      # all threads of one process
        p = 0 if dense else rng.choice([0, 3, 17])
        return [[p, t] for t in rng.sample(range(nq + 3), nq)]
    if k < 0.5:      # the same thread number in every process
        t = rng.choice([0, 1, 5])
        ps = list(range(nq)) if dense else rng.sample(range(nq + 5), nq)
        return [[p, t] for p in ps]
    np_ = rng.randint(1, nq)
    ps = list(range(np_)) if dense else rng.sample(range(np_ + 4), np_)
    out = [[p, 0] for p in ps]
    while len(out) < nq:
        c = [rng.choice(ps), rng.randint(0, nq)]
        if c not in out:
            out.append(c)
    rng.shuffle(out)
    return out


def concretize(rng, rows, met=(), dense=False, threads=None, plain_names=None, extra=True, small=False, locs=None, types=None, huge=False):
    nq = max([r[0] for r in rows], default=1)
    nn = max([r[2] for r in rows], default=1)
    base, unit, fl = rng.choice([(0, 1, False), (0, 1000, False), (17, 1, False), (10**9, 10, False), (1_700_000_000_000, 1, False),
                                 (0, 1, True), (100, 0.5, True), (10**12, 0.25, True), (0, 2048, True), (10**9 + 7, 3, False)])
    if small:
        base, unit, fl = rng.choice([(0, 1, False), (0, 1000, False), (17, 1, False), (0, 1, True), (100, 0.5, True)])
    cols = []
    for k in range(len(met)):
        mb, mu = rng.choice([(0, 1), (1000, 8), (0, 0.5), (-64, 2), (2**40, 1)])
        cols.append(dict(name=rng.choice(["PAPI_TOT_INS", "Bytes", "L2 misses", "x", "Time", "time2", "Timestamp", "Timestamp (s)"]) + ("" if k == 0 else "_%d" % k),
                         base=mb, unit=mu, float=any(c == [] for c in met[k]) or mu != int(mu) or rng.random() < 0.5))
    if cols and rng.random() < 0.1:
        cols[-1]["name"] = rng.choice(["io.inc", "io.exc", "_io", "inc", ".exc"])
    for k in range(len(cols)):
        if rng.random() < 0.15:
            cols[k]["name"] = (cols[0]["name"] if k else "time") + rng.choice([".incidence", ".excess", ".inc2", "x", ".incoming"]) + ("" if k < 2 else str(k))
    if huge and rng.random() < 0.15:      # nanoseconds since 1970, counters that have run for long
        base, unit, fl = 1_700_000_000_123_456_789, rng.choice([1, 3, 1000]), False
        for c in cols:
            if not c["float"] and rng.random() < 0.7:
                c["base"], c["unit"] = 2**60 + 1, 1
    k = rng.random()
    cat = [True] * 4 if k < 0.5 else [False] * 4 if k < 0.7 else [rng.random() < 0.5 for _ in range(4)]
    return dict(names=plain_names or names(rng, nn), locs=locs or locations(rng, nq, dense, threads), base=base, unit=unit, float=fl,
                cols=cols, cat=cat, unused=rng.random() < 0.3,
                types=types or [rng.choice(OTHERS) if r[1] == 2 else "" for r in rows],
                order=rng.random() < 0.7, attrs=extra and rng.random() < 0.3, seed=rng.randint(0, 10**9))


def type_name(case, i):
    t = case["rows"][i][1]
    return "Enter" if t == 0 else "Leave" if t == 1 else case["conc"]["types"][i]


def real_time(conc, t):
    v = conc["base"] + conc["unit"] * t
    return float(v) if conc["float"] else int(v)


def frame(case):
    import numpy as np
    import pandas as pd

    conc, rows = case["conc"], case["rows"]
    d = {}
    d["Timestamp (ns)"] = np.array([real_time(conc, r[3]) for r in rows], dtype="float64" if conc["float"] else "int64")
    d["Event Type"] = pd.Series([type_name(case, i) for i in range(len(rows))], dtype=object)
    d["Name"] = pd.Series([conc["names"][r[2] - 1] for r in rows], dtype=object)
    has_thread = conc["locs"][0][1] is not None
    if has_thread:
        d["Thread"] = np.array([conc["locs"][r[0] - 1][1] for r in rows], dtype="int64")
    d["Process"] = np.array([conc["locs"][r[0] - 1][0] for r in rows], dtype="int64")
    if conc.get("attrs"):
        d["Attributes"] = pd.Series([{"k": i} if r[1] != 1 else None for i, r in enumerate(rows)], dtype=object)
    for k, c in enumerate(conc["cols"]):
        vals = [float("nan") if x == [] else c["base"] + c["unit"] * x[0] for x in case["met"][k]]
        d[c["name"]] = np.array(vals, dtype="float64" if c["float"] else "int64")
    keys = list(d)
    if not conc["order"]:
        random.Random(conc["seed"]).shuffle(keys)
    df = pd.DataFrame({k: d[k] for k in keys})
    for k, name in enumerate(["Event Type", "Name", "Process", "Thread"]):
        if name in df.columns and conc["cat"][k]:
            df[name] = df[name].astype("category")
            if conc["unused"] and name in ("Event Type", "Name"):
                df[name] = df[name].cat.add_categories(["unused " + name])
    return df


def make_trace(case):
    if "via" in case:
        from . import formats
        return formats.make_trace(case)
    from pipit.trace import Trace

    if case.get("lead"):
        import pandas as pd

        df = frame(case)
        span = real_time(case["conc"], case["rows"][-1][3] - case["rows"][0][3] + 1) - real_time(case["conc"], 0)
        parts = []
        for k in range(case["lead"], -1, -1):
            part = df.copy()
            part["Timestamp (ns)"] -= k * span
            parts.append(part)
        return Trace(None, pd.concat(parts, ignore_index=True))
    return Trace(None, frame(case))


# ---------------------------------------------------------------- alpha

def is_missing(v):
    import pandas as pd

    if v is None:
        return True
    if isinstance(v, (list, dict, tuple, set, str)):
        return False
    try:
        return bool(pd.isna(v))
    except (TypeError, ValueError):
        return False


def frac(v):
    """An exact fraction for a real number, None if it is none."""
    try:
        if isinstance(v, str):
            return None
        f = float(v)
        if f != f or f in (float("inf"), float("-inf")):
            return None
        if isinstance(v, int) or (hasattr(v, "dtype") and v.dtype.kind in "iu"):
            return Fraction(int(v))
        return Fraction(f)
    except (TypeError, ValueError, OverflowError):
        return None


LIM = 2**30


def cell(v, base=0, unit=1, den=None, missing_zero=False):
    """A cell as a model value; with den, the closest fraction with denominators up to den within 1e-9."""
    if is_missing(v):
        return [0] if missing_zero else []
    f = frac(v)
    if f is None:
        return OFF
    f = (f - Fraction(base)) / Fraction(unit)
    if den:
        g = f.limit_denominator(den)
        if abs(g - f) > Fraction(1, 10**9) * max(1, abs(f)):
            return OFF
        f = g
    if abs(f.numerator) >= LIM or f.denominator >= LIM:
        return OFF
    if f.denominator == 1:
        return [int(f)]
    if not den:
        return OFF
    return [f.numerator, f.denominator]


def index_cell(v, n, offset=1, none=0):
    """A row number (1-based), `none` for a missing one, -9 for anything else."""
    if is_missing(v):
        return none
    f = frac(v)
    if f is None or f.denominator != 1 or not -LIM < f < LIM:
        return -9
    return int(f) + offset


def project_rows(df, case):
    """The recorded columns of a table as model rows, whatever has been added to it."""
    conc = case["conc"]
    nm = {n: i + 1 for i, n in reversed(list(enumerate(conc["names"])))}
    loc = {tuple(l): i + 1 for i, l in enumerate(conc["locs"])}
    has_thread = conc["locs"][0][1] is not None
    out = []
    ts, ty, na, pr = (df["Timestamp (ns)"].tolist(), df["Event Type"].tolist(), df["Name"].tolist(), df["Process"].tolist())
    th = df["Thread"].tolist() if has_thread else [None] * len(df)
    idx = list(df.index)
    for i in range(len(df)):
        t = cell(ts[i], conc["base"], conc["unit"])
        e = 0 if ty[i] == "Enter" else 1 if ty[i] == "Leave" else 2
        if e == 2 and not (i < len(case["rows"]) and ty[i] == conc["types"][i]):
            e = 9
        if idx[i] != i:
            e = 8
        out.append([loc.get((pr[i], th[i]), 0), e, nm.get(na[i], 0), t[0] if len(t) == 1 else -1])
    return out


def project_cols(df, case):
    """All numeric columns as model cells: the time first."""
    conc = case["conc"]
    out = [[cell(v, conc["base"], conc["unit"]) for v in df["Timestamp (ns)"].tolist()]]
    for c in conc["cols"]:
        out.append([cell(v, c["base"], c["unit"]) for v in df[c["name"]].tolist()])
    return out


def model_cols(case):
    return [[[r[3]] for r in case["rows"]]] + list(case["met"])


def col_name(case, k):
    return "Timestamp (ns)" if k == 0 else case["conc"]["cols"][k - 1]["name"]


def derived_name(case, k, suffix):
    return ("time" if k == 0 else case["conc"]["cols"][k - 1]["name"]) + suffix


def col_unit(case, k):
    return case["conc"]["unit"] if k == 0 else case["conc"]["cols"][k - 1]["unit"]


# ---------------------------------------------------------------- recorders

def merge(rng, streams):
    """Interleaves per-location lists of [type, name, time] by time; ties go to any location (keeping its own order)."""
    pos = [0] * len(streams)
    out = []
    while True:
        live = [q for q in range(len(streams)) if pos[q] < len(streams[q])]
        if not live:
            return out
        t = min(streams[q][pos[q]][2] for q in live)
        q = rng.choice([q for q in live if streams[q][pos[q]][2] == t])
        out.append([q + 1] + streams[q][pos[q]])
        pos[q] += 1


def tree_stream(rng, size, depth, nn, others=0.1, tie=0.3, stop=0.35, step=3):
    """A well-nested stream of about `size` calls."""
    out, t, stack, left = [], rng.randint(0, 3), [], size
    while left > 0 or stack:
        t += 0 if rng.random() < tie else rng.randint(1, step)
        if rng.random() < others:
            out.append([2, rng.randint(1, nn), t])
        elif left > 0 and len(stack) < depth and (not stack or rng.random() > stop):
            n = rng.randint(1, nn)
            if stack and rng.random() < 0.3:
                n = stack[-1]      # recursion
            stack.append(n)
            out.append([0, n, t])
            left -= 1
        elif stack:
            out.append([1, stack.pop(), t])
    return out


def noisy_stream(rng, length, nn, tie=0.4, bias=0.5, others=0.1):
    """Any enters and leaves, unmatched and overlapping ones among them."""
    out, t = [], rng.randint(0, 3)
    for _ in range(length):
        t += 0 if rng.random() < tie else rng.randint(1, 3)
        k = 2 if rng.random() < others else 0 if rng.random() < bias else 1
        out.append([k, rng.randint(1, nn), t])
    return out


def random_rows(rng, kind=None, nested=False, max_rows=60):
    """A random recording; nested: all calls completed and well nested."""
    kind = kind or rng.choice(["tree", "tree", "deep", "wide", "ties", "many"] + ([] if nested else ["noisy", "noisy", "cut"]))
    nn = rng.randint(1, 6)
    if kind == "tree":
        st = [tree_stream(rng, rng.randint(0, max_rows // 6), rng.randint(1, 6), nn) for _ in range(rng.randint(1, 4))]
    elif kind == "deep":
        st = [tree_stream(rng, rng.randint(max_rows // 6, max_rows // 3), 60, nn, stop=0.05) for _ in range(rng.randint(1, 2))]
    elif kind == "wide":
        st = [tree_stream(rng, rng.randint(max_rows // 6, max_rows // 3), 2, nn) for _ in range(rng.randint(1, 2))]
    elif kind == "ties":
        st = [tree_stream(rng, rng.randint(1, max_rows // 6), 5, nn, tie=0.9) for _ in range(rng.randint(2, 4))]
    elif kind == "many":
        st = [tree_stream(rng, rng.randint(0, 4), 3, nn) for _ in range(rng.randint(5, 12))]
    elif kind == "cut":       # a window of a longer recording
        st = []
        for _ in range(rng.randint(1, 3)):
            s = tree_stream(rng, rng.randint(4, max_rows // 4), 8, nn)
            a, b = sorted((rng.randint(0, len(s)), rng.randint(0, len(s))))
            st.append(s[a:b])
    else:
        st = [noisy_stream(rng, rng.randint(1, max_rows // 2), nn, bias=rng.choice([0.3, 0.5, 0.6, 0.8])) for _ in range(rng.randint(1, 4))]
    rows = merge(rng, st)
    if not rows:
        rows = [[1, 0, 1, 0], [1, 1, 1, 1]]
    return renumber(rows)


BIG = ["tower", "crowd", "vocabulary", "fan", "long", "recursion"]


def big_rows(rng, kind=None, size=1):
    """A recording with much of one thing."""
    kind = kind or rng.choice(BIG)     # or "abyss"
    if kind in ("tower", "recursion", "abyss"):        # many calls open at once
        n, st = rng.randint(130, 170) * size, []
        if kind == "abyss":     # more than calls of the interpreter can be
            n = rng.randint(1050, 1200)
        s, t = [], 0
        for k in range(n):
            s.append([0, 1 if kind == "recursion" else rng.randint(1, 9), t])
            t += rng.choice([0, 1, 1, 2])
        for x in list(reversed(s))[:n if rng.random() < 0.6 else rng.randint(0, n)]:
            if rng.random() < 0.97:
                s.append([1, x[1], t])
                t += rng.choice([0, 1, 1, 2])
        st = [s] + [tree_stream(rng, 4, 3, 3)] * rng.randint(0, 1)
    elif kind == "crowd":                     # many locations
        st = [tree_stream(rng, rng.randint(1, 2), 2, 3, stop=0.2) if rng.random() < 0.9 else noisy_stream(rng, 2, 3) for _ in range(rng.randint(30, 50) * size)]
    elif kind == "vocabulary":                # many functions
        n, s, t = rng.randint(130, 270) * size, [], 0
        for k in range(n):
            s += [[0, k + 1, t], [1, k + 1, t + rng.randint(0, 3)]]
            t += 4
        st = [s]
    elif kind == "fan":                       # many calls made by one
        s, t = [[0, 1, 0]], 1
        for k in range(rng.randint(130, 160) * size):
            n = rng.randint(1, 3)
            s += [[0, n, t], [1, n, t + rng.randint(0, 2)]]
            t += 3
        st = [s + [[1, 1, t]]]
    else:
        st = [noisy_stream(rng, rng.randint(60, 90) * size, 4, bias=0.5) if rng.random() < 0.5 else tree_stream(rng, rng.randint(30, 50) * size, 12, 8) for _ in range(rng.randint(1, 3))]
    return renumber(merge(rng, st))


def renumber(rows):
    """Locations and names numbered in order of first occurrence."""
    qs, ns = {}, {}
    return [[qs.setdefault(r[0], len(qs) + 1), r[1], ns.setdefault(r[2], len(ns) + 1), r[3]] for r in rows]


def random_met(rng, rows, n=None):
    """Extra numeric columns."""
    n = rng.choice([0, 1, 1, 2]) if n is None else n
    out = []
    for _ in range(n):
        kind = rng.choice(["up", "any", "holes", "sparse", "allmissing"])
        v, col = 0, []
        for _r in rows:
            v += rng.randint(0, 5)
            x = [v] if kind == "up" else [rng.randint(-50, 50)]
            if kind == "holes" and rng.random() < 0.2:
                x = []
            if kind == "sparse" and rng.random() < 0.7:
                x = []
            if kind == "allmissing":
                x = []
            col.append(x)
        out.append(col)
    return out


def retime(rng, rows):
    """Model recordings have one time unit per row; some of them get ties or gaps."""
    k = rng.random()
    t, out = 0, []
    for r in rows:
        out.append([r[0], r[1], r[2], t])
        t += 1 if k < 0.4 else 0 if k < 0.6 else rng.choice([0, 1, 1, 4])
    return out

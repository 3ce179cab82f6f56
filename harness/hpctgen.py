"""Writing HPCToolkit databases (meta.db, profile.db, trace.db) from model contexts and samples, and telling what was read.

A case:  ctxs    [[parent, kind, function, file, line], ..]  parents first, 0 none; kind 0 function 1 loop 2 line 3 instruction 4 entry point
         fns     [[name, file, line], ..]
         lines   [[[time, context], ..], ..]
         finish  time the database ends
         conc    how to make it concrete
"""
import os
import random
import struct

from . import gamma

FUNCTIONS = ["main", "foo", "foo2", "solve(double*, int)", "operator->", "MPI_Send", "PMPI_Finalize [libmpi.so.12.1.1]", "naïve λ", "<gpu kernel>", "Loop", "loop at x",
             "std::vector<int, std::allocator<int> >::push_back", "a", "b", "ünïcödé", "x" * 200, "MPI_Recv", "main thread 2", "é", "func 10", "func 11", "func 12"]
ENTRIES = ["main thread", "unknown entry", "application thread", "thread ü"]
FILES = ["/home/u/foo.c", "bar.c", "src/naïve.f90", "a b.c", "./x/../y.cpp", "é.h", "z.cc", "main.c"]
MODULES = ["/lib/libmpi.so", "a.out", "/opt/λ.so"]
LINES = [1, 2, 9, 12, 255, 256, 300, 1000, 65535, 65536, 70000, 10**6, 2**31 + 5]
UNKNOWN = ["<unkown function>", "<unknown function>"]


def concretize(rng, ctxs, fns, lines):
    n = len(ctxs)
    ids = list(range(1, n + 1))
    k = rng.random()
    if k < 0.4:
        ids = [3 * i + rng.randint(0, 2) for i in ids]
        rng.shuffle(ids)
    elif k < 0.6:
        ids = rng.sample(range(1, 2**31), n)
    used = sorted({c[4] for c in ctxs} | {f[2] for f in fns})
    used = [x for x in used if x > 0]
    vals = rng.sample(LINES, len(used)) if len(used) <= len(LINES) else rng.sample(range(1, 10**5), len(used))
    names = max([f[0] for f in fns], default=0)
    files = max([f[1] for f in fns] + [c[3] for c in ctxs], default=0)
    entries = max([c[2] for c in ctxs if c[1] == 4], default=0)
    m = len(lines)
    kind = rng.choice(["ranks", "threads", "both", "both", "streams"])
    hits = []
    for i in range(m):
        if kind == "ranks":
            h = dict(RANK=i)
        elif kind == "threads":
            h = dict(THREAD=i)
        elif kind == "both":
            h = dict(RANK=i // 2, THREAD=i % 2)
        else:
            h = dict(RANK=i // 2, THREAD=0) if i % 2 == 0 else dict(RANK=i // 2, GPUCONTEXT=3, GPUSTREAM=i)
        hits.append(h)
    nodes = rng.choice([[], [7], [7, 2**40 + 1], [2**31 + 9]])
    for i, h in enumerate(hits):
        if nodes:
            h["NODE"] = nodes[i % len(nodes)]
        if rng.random() < 0.3:
            h["CORE"] = rng.randint(0, 200)
    rng.shuffle(hits)
    return dict(ids=ids, lines=[[a, b] for a, b in zip(used, vals)], names=rng.sample(FUNCTIONS, names) if names <= len(FUNCTIONS) else ["f%d" % i for i in range(names)],
                files=rng.sample(FILES, files) if files <= len(FILES) else ["f%d.c" % i for i in range(files)], entries=rng.sample(ENTRIES, entries), hits=hits,
                base=rng.choice([0, 5, 1_650_000_000_000_000_000, 2**40 + 1]), unit=rng.choice([1, 1, 10, 1000, 999_983]), seed=rng.randint(0, 10**9))


class Buf:
    def __init__(self, start):
        self.start, self.b = start, bytearray()

    def align(self, n):
        while (self.start + len(self.b)) % n:
            self.b += b"\0"

    @property
    def at(self):
        return self.start + len(self.b)

    def put(self, fmt, *args):
        self.b += struct.pack("<" + fmt, *args)


def header(kind, sections):
    b = b"HPCTOOLKIT" + kind + bytes([4, 0])
    for at, size in sections:
        b += struct.pack("<QQ", size, at)
    return b


def write(case, path):
    conc = case["conc"]
    rng = random.Random(conc["seed"])
    os.makedirs(path)
    kinds = ["SUMMARY", "NODE", "RANK", "THREAD", "CORE", "GPUCONTEXT", "GPUSTREAM"]
    if rng.random() < 0.5:
        rest = kinds[1:] + ["CUSTOM"]
        rng.shuffle(rest)
        kinds = kinds[:1] + rest
    meta(case, os.path.join(path, "meta.db"), rng, kinds)
    prof = profile(case, os.path.join(path, "profile.db"), rng, kinds)
    trace(case, os.path.join(path, "trace.db"), rng, prof)


def meta(case, path, rng, kinds):
    conc = case["conc"]
    line_of = dict([tuple(x) for x in conc["lines"]] + [(0, 0)])
    texts = conc["names"] + conc["files"] + conc["entries"] + MODULES
    texts = list(dict.fromkeys(texts))
    rng.shuffle(texts)
    extra = [8 * rng.choice([0, 0, 1, 2]) for _ in range(4)]
    at = {}

    def strings(p):
        b = Buf(p)
        for s in texts:
            at["s", s] = b.at
            b.b += s.encode("UTF-8") + b"\0"
        return b.b

    def general(p):
        b = Buf(p)
        b.put("QQ", p + 16, p + 16 + len("a title ü".encode()) + 1)
        b.b += "a title ü".encode() + b"\0" + b"some *text*\n\0"
        return b.b

    def idnames(p):
        b = Buf(p)
        head = 16 + 8 * len(kinds)
        ptr = p + head
        b.put("QB7x", p + 16, len(kinds))
        for k in kinds:
            b.put("Q", ptr)
            ptr += len(k) + 1
        for k in kinds:
            b.b += k.encode() + b"\0"
        return b.b

    def specs(names, key, x):
        def go(p):
            b = Buf(p)
            b.put("QIH2x", p + 16, len(names), 16 + x)
            for s in names:
                at[key, s] = b.at
                b.put("I4xQ", rng.choice([0, 1]), at["s", s])
                b.b += b"\xee" * x
            return b.b
        return go

    def functions(p):
        b = Buf(p)
        b.put("QIH2x", p + 16, len(case["fns"]), 40 + extra[2])
        for i, (name, file, line) in enumerate(case["fns"]):
            at["f", i + 1] = b.at
            mod = at["m", rng.choice(MODULES)] if rng.random() < 0.7 else 0
            b.put("QQQQII", at["s", conc["names"][name - 1]] if name else 0, mod, 64 * i, at["x", conc["files"][file - 1]] if file else 0, line_of[line], 0)
            b.b += b"\xee" * extra[2]
        return b.b

    def tree(p):
        ctxs = case["ctxs"]
        kids = {}
        roots = []
        for i, c in enumerate(ctxs):
            if c[1] == 4:
                roots.append(i)
            else:
                kids.setdefault(c[0] - 1, []).append(i)
        size = {}
        flex = {}
        for i, (par, kind, f, file, line) in enumerate(ctxs):
            if kind == 4:
                continue
            fl, data = 0, b""
            if kind == 0 and f:
                fl |= 1
                data += struct.pack("<Q", at["f", f])
            if file:
                fl |= 2
                data += struct.pack("<QII", at["x", conc["files"][file - 1]], line_of[line], rng.choice([0, 0, 2**32 - 1]))
            if kind == 3 or rng.random() < 0.2:
                fl |= 4
                data += struct.pack("<QQ", at["m", rng.choice(MODULES)], rng.randint(0, 10**6))
            if rng.random() < 0.1:
                data += b"\xdd" * 8
            flex[i] = fl, data
            size[i] = 32 + len(data)
        order = list(kids)
        rng.shuffle(order)
        where, here = {}, p + 16 + (32 + extra[3]) * len(roots)
        for i in order:
            where[i] = here
            here += sum(size[k] for k in kids[i])
        b = Buf(p)
        b.put("QHB5x", p + 16, len(roots), 32 + extra[3])
        total = lambda i: sum(size[k] for k in kids.get(i, []))
        for i in roots:
            b.put("QQIH2xQ", total(i), where.get(i, 0), conc["ids"][i], rng.randint(0, 2), at["s", conc["entries"][ctxs[i][2] - 1]])
            b.b += b"\xee" * extra[3]
        for i in order:
            assert b.at == where[i]
            for k in kids[i]:
                fl, data = flex[k]
                relation = 0 if ctxs[k][1] else rng.choice([0, 1, 2])
                b.put("QQIBBBBH6x", total(k), where.get(k, 0), conc["ids"][k], fl, relation, ctxs[k][1], len(data) // 8, rng.randint(0, 3))
                b.b += data
        return b.b

    # sections by their number in the header, built in an order in which references are known
    build = [(4, strings), (0, general), (1, idnames), (2, lambda p: b"\xcc" * rng.choice([0, 16])), (5, specs(MODULES, "m", extra[0])),
             (6, specs(conc["files"], "x", extra[1])), (7, functions), (3, tree)]
    if rng.random() < 0.5:
        head, tail = build[:4], build[4:6]
        rng.shuffle(head)
        head.sort(key=lambda x: x[0] != 4 and rng.random() < 0)  # strings are needed by what follows
        rng.shuffle(tail)
        build = head + tail + build[6:]
    body = Buf(0x90)
    places = {}
    for num, make in build:
        body.align(8)
        body.b += b"\0" * rng.choice([0, 0, 8])
        p = body.at
        data = make(p)
        body.b += data
        places[num] = p, len(data)
    with open(path, "wb") as f:
        f.write(header(b"meta", [places[k] for k in range(8)]) + bytes(body.b) + b"_meta.db")


def profile(case, path, rng, kinds):
    """Returns the number of each trace line's profile."""
    hits = case["conc"]["hits"]
    order = list(range(len(hits)))
    rng.shuffle(order)
    spare = rng.choice([0, 0, 1])
    hit = Buf(0x30)
    ptr = {}
    for i in order + ["spare"] * spare:
        ptr[i] = hit.at
        h = hits[i] if i != "spare" else dict(RANK=99, THREAD=77)
        ids = [k for k in ("NODE", "RANK", "CORE", "THREAD", "GPUCONTEXT", "GPUSTREAM") if k in h]
        hit.put("H6x", len(ids))
        for k in ids:
            hit.put("BxHIQ", kinds.index(k), 1 if k in ("NODE", "CORE") else 0, rng.randint(0, 9) if k in ("NODE", "CORE") else h[k], h[k])
    rows = [None] + rng.sample(list(ptr), len(ptr))
    info = Buf(hit.at)
    x = 8 * rng.choice([0, 0, 1])
    info.put("QIB3x", info.at + 16, len(rows), 0x30 + x)
    for i in rows:
        info.b += b"\xaa" * 0x20
        info.put("QI4x", 0 if i is None else ptr[i], 1 if i is None else 0)
        info.b += b"\xee" * x
    with open(path, "wb") as f:
        f.write(header(b"prof", [(info.start, len(info.b)), (hit.start, len(hit.b))]) + bytes(hit.b) + bytes(info.b) + b"_prof.db")
    return [rows.index(i) for i in range(len(hits))]


def trace(case, path, rng, prof):
    conc = case["conc"]
    n = len(case["lines"])
    x = 8 * rng.choice([0, 0, 1])
    order = list(range(n))
    rng.shuffle(order)
    data = Buf(0x20)
    where = {}
    for i in order:
        data.align(4)
        start = data.at
        for t, k in case["lines"][i]:
            data.put("QI", conc["base"] + conc["unit"] * t, conc["ids"][k - 1] if k else 0)
        where[i] = start, data.at
    data.align(8)
    heads = Buf(data.at)
    heads.put("QIB3xQQ", heads.at + 32, n, 24 + x, conc["base"], conc["base"] + conc["unit"] * case["finish"])
    for i in rng.sample(range(n), n):
        heads.put("I4xQQ", prof[i], *where[i])
        heads.b += b"\xee" * x
    with open(path, "wb") as f:
        f.write(header(b"trce", [(heads.start, len(heads.b))]) + bytes(data.b) + bytes(heads.b) + b"trace.db")


TYPES = {"Enter": 0, "Leave": 1, "Loop Enter": 2, "Loop Leave": 3}


def number(x):
    f = gamma.frac(x)
    return int(f) if f is not None and f.denominator == 1 else None


def columns(df):
    return {c: df[c].tolist() for c in df.columns}


def project(case, df):
    conc = case["conc"]
    cols = columns(df)
    ids = {v: i + 1 for i, v in enumerate(conc["ids"])}
    lines = {}
    for i, h in enumerate(conc["hits"]):
        lines[h.get("RANK", 0), h.get("THREAD"), h.get("NODE"), h.get("CORE")] = i + 1
    rows = []
    missing = [None] * len(df)
    for k in range(len(df)):
        t = number(cols["Timestamp (ns)"][k])
        t = -7 if t is None or t % conc["unit"] or abs(t // conc["unit"]) >= 2**30 else t // conc["unit"]
        where = tuple(number(cols.get(c, missing)[k]) for c in ("Process", "Thread", "Host", "Core"))
        rows.append([t, TYPES.get(cols["Event Type"][k], 9), ids.get(number(cols["Calling Context ID"][k]), 0), lines.get(where, 0)])
    # without rows, all columns are without a value and dropped
    return rows, not rows or list(df.index) == list(range(len(df))) and {"Timestamp (ns)", "Event Type", "Name", "Process"} <= set(df.columns)


def project_tree(case, trace):
    """Contexts as their rows show them, and the tree."""
    conc = case["conc"]
    df = trace.events
    cols = columns(df)
    ids = {v: i + 1 for i, v in enumerate(conc["ids"])}
    nodes = []                 # (node, context)
    first = {}
    for v, k in zip(cols["Node"], cols["Calling Context ID"]):
        if id(v) not in first:
            first[id(v)] = ids.get(number(k), 0)
            nodes.append((v, first[id(v)]))

    def ctx(v):
        if v is None:
            return 0
        if id(v) in first:
            return first[id(v)]
        for w, k in nodes:
            if w == v:
                return k
        return -1

    names = {n: [1, i + 1] for i, n in enumerate(conc["names"])}
    names.update({n: [4, i + 1] for i, n in enumerate(conc["entries"])})
    names["loop"] = [2, 0]
    for n in UNKNOWN:
        names[n] = [3, 0]
    files = {n: i + 1 for i, n in enumerate(conc["files"])}
    files[""] = 0
    back = {str(b): a for a, b in conc["lines"]}
    back.update({"0": 0, "-1": -1})
    seen = set()
    for v, k, n, f, l, ty in zip(cols["Node"], cols["Calling Context ID"], cols["Name"], cols.get("Source File Name", [None] * len(df)),
                                 cols.get("Source File Line Number", [None] * len(df)), cols["Event Type"]):
        c = ids.get(number(k), 0)
        seen.add((c, ctx(v.parent), v.get_level(), *names.get(n, [0, 0]), files.get(f, -2), back.get(str(l), -2), 1 if TYPES.get(ty, 9) in (2, 3) else 0))
    tree, roots = [], [ctx(v) for v in trace.cct.roots]
    todo = list(trace.cct.roots)
    while todo and len(tree) < 5000:
        v = todo.pop()
        tree.append([ctx(v), [ctx(w) for w in v.children]])
        todo += v.children
    return dict(seen=sorted(list(x) for x in seen), roots=roots, tree=tree)


def random_tree(rng, n, deep=None, entries=3):
    nf = rng.randint(1, 6)
    fns = []
    for i in range(nf):
        k = rng.random()
        file = rng.randint(1, 4) if k < 0.8 else 0
        fns.append([i + 1 if rng.random() < 0.85 else 0, file, rng.randint(1, 9) if file else 0])
    for i, f in enumerate(fns):
        if f[0]:
            f[0] = sum(1 for g in fns[:i] if g[0]) + 1
    ctxs = [[0, 4, 1, 0, -1]]
    roots = 1
    deep = rng.random() if deep is None else deep
    while len(ctxs) < n:
        if rng.random() < 0.05 and roots < entries:
            roots += 1
            ctxs.append([0, 4, roots, 0, -1])
            continue
        p = len(ctxs) if rng.random() < deep else rng.randint(1, len(ctxs))
        kind = rng.choice([0, 0, 0, 1, 2, 2, 3])
        fn = rng.randint(1, nf) if kind == 0 and rng.random() < 0.85 else 0
        own = kind in (1, 2) or (kind == 0 and rng.random() < 0.25)
        ctxs.append([p, kind, fn, rng.randint(1, 4) if own else 0, rng.randint(1, 9) if own else -1])
    return ctxs, fns


def random_samples(rng, n, m, span, idle=0.15):
    ts = sorted(rng.randint(0, span) for _ in range(m))
    out = []
    last = None
    for t in ts:
        k = rng.random()
        if k < idle and last != 0:
            c = 0
        elif k < idle + 0.15 and last:
            c = last
        else:
            c = rng.randint(1, n)
        out.append([t, c])
        last = c
    return out

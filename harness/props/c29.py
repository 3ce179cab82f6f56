"""Incomplete or foreign recordings are refused."""
import gzip
import os
import random
import shutil

from .. import hpctgen, tlc, work

ASSUMPTIONS = ["the order in which a directory lists its files is set by a stand-in for os.listdir", "processors stated are one or more",
               "a file of a database counts as what its first 14 bytes say"]
EXECUTABLES = ["a.out", "a", "x.0", "x", "x.sts", "pingpong.prj", "naïve", "my app", "0", "log"]
JUNK = ["notes.txt", "%s.projrc", "%s.topo", "%s.0.sum", "%s.0.log", "%s.sts.gz", "sts", "%s.99.log.gz", "%s.log.gz", "%s.00.log.gz", "old.0.log.gz", "core.1", ".%s.swp",
        "%s.sts/", "dir/"]
DB = ["meta.db", "profile.db", "trace.db"]


def design(tier):
    return [dict(name="all small directories", module="MC_Admission", consts=dict(MaxPes=2 if tier == "quick" else 3, Runs=2, MaxJunk=1 if tier == "quick" else 2), invariants=["AsFit", "AllOrNothing"],
                 properties=["Ends"], must=["NoDirectory", "NoneFound", "CheckFile", "Accept", "DoLook", "DoCheckLog"], workers=8, timeout=3000)]


BROKEN = ["empty", "text", "letter", "last", "case", "family", "short"]


def make(rng, d):
    runs = sorted({x[1] for x in d["dir"] if x[0] in ("sts", "log")} | {1})
    exe = rng.sample(EXECUTABLES, len(runs))
    return dict(d, conc=dict(exe=[[e, n] for e, n in zip(runs, exe)], junk=rng.sample(JUNK, 6), shuffle=rng.randint(0, 10**6), workers=rng.choice([None, 1, 2, 5, 100, 0, -1]),
                             path=rng.choice(["missing", "file", "sts"]), seed=rng.randint(0, 10**6), broken=rng.choice(BROKEN)))


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    got, r = tlc.generate("MC_Admission", dict(MaxPes=2, Runs=2, MaxJunk=1))
    rep.add_tlc("generation", r)
    small = []
    for g in got:
        runs = {x[1] for x in g["dir"] if x[0] == "sts"}
        if tier == "thorough" or g["format"] == "hpctoolkit" or len(runs) == 1 or rng.random() < 0.3:
            small += [make(rng, g) for _ in range(1 if g["isdir"] else 3)]
        if g["format"] == "hpctoolkit" and len(g["dir"]) == 3 and sum(x[1] != x[2] for x in g["dir"]) == 1:     # one file is wrong, in every way
            for b in BROKEN:
                c = make(rng, g)
                c["conc"]["broken"] = b
                small.append(c)
    if tier == "quick":
        small = [c for c in small if c["format"] == "hpctoolkit"] + rng.sample([c for c in small if c["format"] != "hpctoolkit"], 450)
    rnd = []
    for k in range(150 if tier == "quick" else 4000):
        n = rng.choice([1, 2, 3, 10, 11, 12, 25])
        d = [["sts", 1, n]] + [["log", 1, i] for i in range(n)] + [["junk", x, 0] for x in rng.sample(range(1, 7), rng.randint(0, 4))]
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            d.remove(rng.choice([x for x in d if x[0] == "log"] or [d[0]]))
        if rng.random() < 0.3:
            d += [["log", 1, n + i] for i in range(rng.randint(1, 3))]
        if rng.random() < 0.3:
            d += [["log", 2, i] for i in range(rng.randint(1, n))]
        if rng.random() < 0.1:
            d += [["sts", 2, 1]]
        rng.shuffle(d)
        rnd.append(make(rng, dict(format="projections", isdir=True, dir=d)))
    return [("TLC, small directories", small), ("random directories", rnd)]


def listing(root):
    out = {}
    for d, _, fs in os.walk(root):
        out[d] = True
        for f in fs:
            out[os.path.join(d, f)] = open(os.path.join(d, f), "rb").read()
    return out


def projections(case, path):
    conc = case["conc"]
    exe = dict(map(tuple, conc["exe"]))
    if not case["isdir"]:
        if conc["path"] == "missing":
            return path
        os.mkdir(path)
        f = os.path.join(path, "a.sts")
        with open(f, "w") as o:
            o.write("PROCESSORS 1\nEND\n" if conc["path"] == "sts" else "")
        return f
    os.mkdir(path)
    for kind, e, n in case["dir"]:
        if kind == "sts":
            with open(os.path.join(path, exe[e] + ".sts"), "w") as f:
                f.write("PROJECTIONS_ID \nVERSION 11.0\nPROCESSORS %d\nTOTAL_CHARES 1\nTOTAL_EPS 1\nTOTAL_MSGS 1\nTOTAL_EVENTS 0\nCHARE 0 \"c\" 1\n"
                        "ENTRY CHARE 0 \"main\" 0 0\nMESSAGE 0 64\nTOTAL_STATS 0\nEND\n" % n)
        elif kind == "log":
            with gzip.open(os.path.join(path, "%s.%d.log.gz" % (exe[e], n)), "wt", compresslevel=1) as f:
                f.write("PROJECTIONS-RECORD 2\n6 %d\n7 %d\n" % (1000 * e + n, 1000 * e + n + 500))
        else:
            name = conc["junk"][e - 1]
            name = os.path.join(path, name % exe[1] if "%s" in name else name)
            if os.path.exists(name.rstrip("/")):
                continue
            if name.endswith(".sts/"):
                os.mkdir(name[:-1] + ".d")
            elif name.endswith("/"):
                os.mkdir(name[:-1])
            else:
                with open(name, "w") as f:
                    f.write("PROCESSORS 5\n")
    return path


def hpctoolkit(case, path, clean=False):
    conc = case["conc"]
    if not case["isdir"] and not clean:
        if conc["path"] != "missing":
            open(path, "w").close()
        return path
    rng = random.Random(conc["seed"])
    ctxs, fns = hpctgen.random_tree(rng, 8)
    lines = [hpctgen.random_samples(rng, 8, 5, 10) for _ in range(3)]
    hpctgen.write(dict(ctxs=ctxs, fns=fns, lines=lines, finish=12, conc=hpctgen.concretize(rng, ctxs, fns, lines)), path)
    if clean:
        return path
    data = [open(os.path.join(path, f), "rb").read() for f in DB]
    says = {x[1]: x[2] for x in case["dir"]}
    for f in (1, 2, 3):
        name = os.path.join(path, DB[f - 1])
        if f not in says:
            os.unlink(name)
        elif says[f] != f:
            k = says[f]
            if k:
                b = data[k - 1] if conc["broken"] != "case" else data[f - 1][:10] + data[k - 1][10:14] + data[f - 1][14:]
            else:
                b = {"empty": b"", "text": b"Timestamp (ns),Name\n0,foo\n", "letter": b"X" + data[f - 1][1:], "last": data[f - 1][:9] + b"X" + data[f - 1][10:], "family": b"hpcviewer2" + data[f - 1][10:], "case": data[f - 1][:10].lower() + data[f - 1][10:],
                     "short": data[f - 1][:9]}[conc["broken"]]
            with open(name, "wb") as o:
                o.write(b)
    return path


def observe(case):
    from pipit.trace import Trace

    conc = case["conc"]
    tmp = work.place()
    real = os.listdir
    out, logs, complete = "read", [], True
    try:
        path = (projections if case["format"] == "projections" else hpctoolkit)(case, os.path.join(tmp, "recording"))
        before = listing(tmp)
        try:
            if case["format"] == "projections":
                def shuffled(*a):
                    names = sorted(real(*a))
                    random.Random(conc["shuffle"]).shuffle(names)
                    return names
                os.listdir = shuffled
                try:
                    kw = {} if conc["workers"] is None else dict(num_processes=conc["workers"])
                    df = Trace.from_projections(path, **kw).events
                finally:
                    os.listdir = real
                for t, p in zip(df["Timestamp (ns)"].tolist(), df["Process"].tolist()):
                    t = t / 1000
                    e, i = (int(t) // 1000, int(t) % 500) if t == int(t) else (-1, -1)
                    logs.append(["log", e if int(p) == i else -1, i])
                logs = [list(x) for x in sorted({tuple(x) for x in logs if logs.count(x) == 2})] + [x for x in logs if logs.count(x) != 2]
            else:
                df = Trace.from_hpctoolkit(path).events
                want = Trace.from_hpctoolkit(hpctoolkit(case, os.path.join(tmp, "clean"), True)).events
                cols = [c for c in df.columns if c != "Node"]
                complete = df[cols].equals(want[cols])
                shutil.rmtree(os.path.join(tmp, "clean"))
        except Exception as e:
            out = type(e).__name__
        kept = before == listing(tmp)
    finally:
        os.listdir = real
        shutil.rmtree(tmp)
    return dict(format=case["format"], isdir=case["isdir"], dir=case["dir"], obs=dict(outcome=out, logs=logs, complete=bool(complete), kept=bool(kept)))


def conf(case):
    return ("Conf_Admission", ())


def weight(rec):
    return 20 + 4 * len(rec["dir"])


def corrupt(rec):
    o = rec["obs"]
    o["outcome"] = "read" if o["outcome"] != "read" else "ValueError"
    return rec

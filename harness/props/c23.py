"""Reading Nsight reports of ranges."""
import csv
import os
import random
import shutil

from .. import gamma, tlc, work

ASSUMPTIONS = ["where ranges of a thread overlap without being nested, only their rows and the order of time are judged",
               "which process or thread gets which number is not judged, nor how equal or empty ranges at one time are nested in each other"]
NAMES = ["foo", "solve", ":main", "null", "NA", "1", "", "a,b", "x \"q\"", "naïve λ", "kernel<float>", "None", "nan", "step 10", " lead"]


def design(tier):
    inv = ["InTime", "Once", "ParentRight", "Siblings"]
    mk = lambda name, a, b, c: dict(name=name, module="MC_Nsight", consts=dict(MaxRanges=a, MaxTime=b, Threads=c), invariants=inv, properties=["Completes"],
                                    must=["DoEnter", "DoLeave"], workers=8, timeout=3000)
    if tier == "quick":
        return [mk("one thread", 3, 3, 1), mk("two processes", 3, 1, 2)]
    return [mk("one thread", 4, 3, 1), mk("one thread, longer", 3, 5, 1), mk("two processes", 4, 1, 2)]


def make(rng, ranges):
    """ranges [[process, thread, start, end], ..]"""
    ps = sorted({r[0] for r in ranges})
    many = any(r[1] > 1 for r in ranges)
    pids = dict(zip(ps, rng.sample(range(2, 70000), len(ps))))
    single = not many and rng.random() < 0.5
    same = rng.random() < 0.2       # the same thread ids in all processes
    tids = {}
    pool = rng.sample(range(100000, 900000), 40)
    for p, t in sorted({(r[0], r[1]) for r in ranges}):
        tids[p, t] = pids[p] if single or (t == 1 and rng.random() < 0.6) else pool[t] if same else pool.pop()
    if rng.random() < 0.2:         # thread ids that are process ids, of this process or another
        for p in ps:
            mine = [k for k in tids if k[0] == p]
            for k, v in zip(mine, rng.sample(sorted(pids.values()), min(len(mine), len(pids)))):
                tids[k] = v
            used = [tids[k] for k in mine]
            if len(set(used)) < len(used):
                for k in mine:
                    tids[k] = pool.pop()
    n = rng.randint(1, 4)
    conc = dict(base=rng.choice([0, 3, 10**9, 1_700_000_000_000_000_000]), unit=rng.choice([1, 1, 7, 1000]), names=[rng.choice(NAMES) for _ in range(n)],
                of=[rng.randrange(n) for _ in ranges], pids=[[p, v] for p, v in pids.items()], tids=[[p, t, v] for (p, t), v in tids.items()],
                full=rng.random() < 0.6, cct=rng.random() < 0.2, order=rng.random() < 0.3)
    return dict(ranges=ranges, conc=conc)


def nest(rng, n, span, procs=2, threads=2, overlap=False):
    out = []

    def fill(p, t, lo, hi, budget, depth):
        at = lo
        while budget[0] > 0 and at <= hi:
            s = rng.randint(at, hi) if rng.random() < 0.4 else at
            k = rng.random()
            e = hi if k < 0.25 else s if k < 0.35 else rng.randint(s, hi)
            if overlap and rng.random() < 0.2:
                e = e + rng.randint(0, 3)
            budget[0] -= 1
            out.append([p, t, s, e])
            if rng.random() < 0.6 and depth < 12:
                fill(p, t, s, min(e, hi), budget, depth + 1)
            at = e
            if rng.random() < 0.2:
                return

    for p in range(1, procs + 1):
        for t in range(1, rng.randint(1, threads) + 1):
            budget = [rng.randint(0, n)]
            for _ in range(20):
                if budget[0] <= 0:
                    break
                lo = rng.randint(0, span)
                mine = [r for r in out if r[:2] == [p, t]]
                lo = max([lo] + [r[3] for r in mine]) if not overlap else lo
                fill(p, t, lo, lo + rng.randint(0, span), budget, 0)
    rng.shuffle(out)
    return out


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    got, r = tlc.generate("MC_Nsight", dict(MaxRanges=3, MaxTime=3, Threads=1))
    rep.add_tlc("generation", r)
    got2, r = tlc.generate("MC_Nsight", dict(MaxRanges=3, MaxTime=1, Threads=2))
    rep.add_tlc("generation", r)
    k = 350 if tier == "quick" else 8000
    got = rng.sample(got, min(len(got), k)) + rng.sample(got2, min(len(got2), k // 3))
    small = [make(rng, g) for g in got]
    rnd = []
    for k in range(300 if tier == "quick" else 6000):
        rs = nest(rng, rng.randint(1, 10) if k % 12 else 40, rng.choice([2, 5, 30]), rng.choice([1, 1, 2, 3, 6]), rng.choice([1, 1, 2, 4]), overlap=k % 6 == 0)
        if rs:
            rnd.append(make(rng, rs))
    return [("TLC, small reports", small), ("random reports", rnd)]


def write(case, path):
    conc = case["conc"]
    pids = dict(map(tuple, conc["pids"]))
    tids = {(p, t): v for p, t, v in conc["tids"]}
    head = ["Start (ns)", "End (ns)"]
    if conc["full"]:
        head += ["Duration (ns)", "DurChild (ns)"]
    head += ["Name", "PID", "TID"]
    if conc["full"]:
        head += ["Lev", "NumChild"]
    head += ["RangeId", "ParentId", "RangeStack"]
    if conc["order"]:
        head = head[::-1]
    table = []
    for i, (p, t, s, e) in enumerate(case["ranges"]):
        row = {"Start (ns)": conc["base"] + conc["unit"] * s, "End (ns)": conc["base"] + conc["unit"] * e, "Duration (ns)": conc["unit"] * (e - s),
               "DurChild (ns)": 0, "Name": conc["names"][conc["of"][i]], "PID": pids[p], "TID": tids[p, t], "Lev": i % 3, "NumChild": 0,
               "RangeId": i + 1, "ParentId": "" if i % 2 else i, "RangeStack": ":%d:%d" % (i, i + 1)}
        table.append(row)
    with open(path, "w", newline="", encoding="utf-8") as f:
        w = csv.DictWriter(f, head, quoting=csv.QUOTE_MINIMAL)
        w.writeheader()
        w.writerows(table and [{k: r[k] for k in head} for r in table])
    return head, table


def number(x):
    f = gamma.frac(x)
    return int(f) if f is not None and f.denominator == 1 else None


def observe(case):
    from pipit.trace import Trace

    conc = case["conc"]
    tmp = work.place()
    try:
        path = os.path.join(tmp, "report.csv")
        head, table = write(case, path)
        t = Trace.from_nsight(path, create_cct=True) if conc["cct"] else Trace.from_nsight(path)
    finally:
        shutil.rmtree(tmp)
    df = t.events
    cols = {c: df[c].tolist() for c in df.columns}
    rows, attributes = [], True
    for k in range(len(df)):
        x = number(cols["Timestamp (ns)"][k])
        x = -7 if x is None or (x - conc["base"]) % conc["unit"] or abs(x - conc["base"]) >= 2**30 else (x - conc["base"]) // conc["unit"]
        r = number(cols["RangeId"][k]) or 0
        th = number(cols["Thread"][k]) if "Thread" in cols else -1
        rows.append([x, {"Enter": 0, "Leave": 1}.get(cols["Event Type"][k], 2), r, number(cols["Process"][k]), -9 if th is None else th])
        if rows[-1][3] is None:
            rows[-1][3] = -9
        if 1 <= r <= len(table):
            for c in head:
                if c in ("Start (ns)", "End (ns)"):
                    continue
                want, have = table[r - 1][c], cols[c][k] if c in cols else None
                if want == "" and c != "Name":
                    ok = gamma.is_missing(have)
                elif isinstance(want, str):
                    ok = have == want
                else:
                    ok = number(have) == want
                attributes = attributes and bool(ok)
    columns = list(df.index) == list(range(len(df))) and {"Timestamp (ns)", "Event Type", "Name", "Process"} <= set(cols)
    threads = any(r["PID"] != r["TID"] for r in table)
    parents = [0] * len(case["ranges"])
    try:
        t._match_caller_callee()
    except Exception:
        parents = [-1]
    else:
        ids = t.events["RangeId"].tolist()
        at = dict(zip(t.events.index, ids))
        for r, ty, p in zip(ids, t.events["Event Type"].tolist(), t.events["_parent"].tolist()):
            if ty == "Enter" and not gamma.is_missing(p):
                parents[number(r) - 1] = number(at[int(p)])
    return dict(ranges=case["ranges"], threads=threads, obs=dict(rows=rows, columns=bool(columns), attributes=bool(attributes), parents=parents))


def conf(case):
    return ("Conf_Nsight", ())


def weight(rec):
    n = len(rec["ranges"])
    return 10 + n * n


def corrupt(rec):
    rows = rec["obs"]["rows"]
    rows[-1][len(rows) // 2 % 4] += 1
    return rec

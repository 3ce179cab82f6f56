"""Recurring patterns."""
import random

from .. import gamma, tlc
from . import stack

ASSUMPTIONS = stack.ASSUMPTIONS + [
    "the loop is entered and left at least once at the process, windows have three calls or more, and there are as many calls as a window has",
    "costs of calls within a window spread little enough for their correlations to be exact in 31 bits",
    "how many windows are similar enough is judged up to a quarter of a unit of the normalized distance"]


def design(tier):
    inv = ["InvSeries", "InvSimilar", "InvApart"]
    must = ["Ask", "DoGather", "DoSlide", "DoFirst", "DoNext"]
    mk = lambda name, **k: dict(name=name, module="MC_Patterns", consts=k, invariants=inv, must=must, workers=8, timeout=3000)
    if tier == "quick":
        return [mk("two costs", Calls=6, MaxCost=1, Every=3, Widths={0, 3}, Counts={2, 3})]
    return [mk("three costs", Calls=6, MaxCost=2, Every=3, Widths={0, 3}, Counts={0, 2, 3}),
            mk("two costs", Calls=9, MaxCost=1, Every=4, Widths={0, 3, 4}, Counts={2, 3})]


# ---------------------------------------------------------------- recordings

def block(rng, m, span):
    return [rng.randint(0, span) for _ in range(m)]


def loop_rows(rng):
    """A loop in one process whose rounds are more or less alike, with other processes next to it."""
    m = rng.choice([3, 3, 4, 5, 6, 7])
    span = max(1, min(29 // (m + 1), 5))
    rounds = rng.randint(2, max(2, 36 // m))
    kind = rng.choice(["alike", "alike", "nearly", "nearly", "two", "any", "flat"])
    bodies = [block(rng, m, span) for _ in range(2)]
    wrap = rng.random() < 0.6            # every round enters the loop anew
    nested = rng.random() < 0.3
    out, t = [], rng.randint(0, 3)
    for _ in range(rng.randint(0, 2)):   # before the loop
        out += [[0, 3, t], [1, 3, t + 2]]
        t += 2 + rng.randint(0, 2)
    if rng.random() < 0.15:              # a leave of the loop nothing was entered for
        out.append([1, 1, t])
    if not wrap:
        out.append([0, 1, t])
    for r in range(rounds):
        if wrap:
            out.append([0, 1, t])
        b = list(bodies[0] if kind != "two" else bodies[r % 2]) if kind not in ("any", "flat") else block(rng, m, span if kind == "any" else 1)
        if kind == "flat" and rng.random() < 0.6:
            b = [1] * m
        if kind == "nearly":
            for _ in range(rng.choice([0, 1, 1, 2])):
                b[rng.randrange(m)] = rng.randint(0, span)
        gap = rng.choice([0, 1, 1])
        for k, d in enumerate(b):
            n = 2 + k % 4
            if nested and k + 1 < m and k % 2 == 0 and d > 0:
                out.append([0, n, t])
                a = rng.randint(0, d)
                t += a
                out += [[0, 6, t], [1, 6, t]]
                t += d - a
                out.append([1, n, t])
            else:
                out.append([0, n, t])
                t += d
                out.append([1, n, t])
            t += gap
            if rng.random() < 0.1:
                out.append([2, 7, t])
        if wrap:
            out.append([1, 1, t])
            t += gap
    if not wrap:
        out.append([1, 1, t])
    for _ in range(rng.randint(0, 2)):
        out += [[0, 3, t], [1, 3, t + 1]]
        t += 2
    if rng.random() < 0.15:
        out.append([0, 1, t])
    return out, m, rounds, t, span


def fit(rows, ask, case):
    """Whether the series is one the check can judge, by the model's own way of counting it."""
    opened, cost, kids, order = {}, {}, {}, []
    col = case["met"][ask["col"] - 2] if ask["col"] > 1 else [[r[3]] for r in rows]
    starts = [i for i, r in enumerate(rows) if r[1] == 0 and r[2] == ask["start"] and case["procs"][r[0] - 1] == ask["process"]]
    ends = [i for i, r in enumerate(rows) if r[1] == 1 and r[2] == ask["start"] and case["procs"][r[0] - 1] == ask["process"]]
    if not starts or not ends or starts[0] > ends[-1]:
        return False
    mate, par, st = {}, {}, {}
    for i, r in enumerate(rows):
        s = opened.setdefault(r[0], [])
        if r[1] == 0:
            s.append(i)
        elif r[1] == 1:
            c = [e for e in s if rows[e][2] == r[2]]
            if c:
                s.remove(c[-1])
                mate[c[-1]] = i
                mate[i] = c[-1]
    for i, r in enumerate(rows):
        if i in mate:
            s = st.setdefault(r[0], [])
            if r[1] == 0:
                par[i] = s[-1] if s else None
                s.append(i)
            elif r[1] == 1:
                s.remove(mate[i])
    inc = {e: None if col[e] == [] or col[mate[e]] == [] else col[mate[e]][0] - col[e][0] for e in par}
    val = dict(inc)
    if ask["exclusive"]:
        for e, p in par.items():
            if p is not None:
                val[p] = None if val[p] is None or inc[e] is None else val[p] - inc[e]
    xs = [val[i] for i in range(starts[0] + 1, ends[-1]) if i in val and val[i] is not None and case["procs"][rows[i][0] - 1] == ask["process"]]
    count = ask["count"] or len(starts)
    m = ask["window"] or len(xs) // count
    if m < 3 or len(xs) < m or len(xs) > 60:
        return False
    worst = 0
    for k in range(len(xs) - m + 1):
        w = xs[k:k + m]
        worst = max(worst, m * sum(x * x for x in w) - sum(w) ** 2)
    return worst <= 210 and max(abs(x) for x in xs) < 5000


def make(rng):
    stream, m, rounds, end, span = loop_rows(rng)
    streams = [stream]
    procs = [0]
    for _ in range(rng.choice([0, 0, 1, 2])):
        o = gamma.tree_stream(rng, rng.randint(1, 12), 3, 5)
        streams.append([[e[0], rng.choice([1, 2, 3, 4]) if False else e[1], e[2]] for e in o])
        procs.append(len(streams) - 1)
    rows = gamma.merge(rng, streams)
    met = gamma.random_met(rng, rows, rng.choice([0, 0, 0, 1]))
    if met and rng.random() < 0.7:       # a counter with small steps
        v, col = 0, []
        for r in rows:
            v += rng.randint(0, 1)
            col.append([v])
        met = [col]
    locs = [[0, None]] if len(procs) == 1 else None
    names = gamma.names(rng, max(r[2] for r in rows))
    threads = rng.random() < 0.4
    locs, seen = [], 0
    nums = rng.sample([0, 0, 1, 2, 3, 9], 3)
    while len(set(nums)) < 3:
        nums = rng.sample(range(12), 3)
    if rng.random() < 0.6:
        nums = [0] + [x for x in (5, 1, 2) if x][:2]
    for q in range(len(procs)):
        if threads and q and rng.random() < 0.5:
            locs.append([nums[0], q])      # another thread of the loop's process
        else:
            locs.append([nums[q], 0 if threads else None])
    conc = gamma.concretize(rng, rows, met, plain_names=names, locs=locs)
    case = dict(rows=rows, met=met, conc=conc, procs=[l[0] for l in locs])
    ask = dict(start=1, process=nums[0], proc=case["procs"], col=1 if not met or rng.random() < 0.3 else 2, exclusive=rng.random() < 0.75,
               window=rng.choice([0, 0, m, m, m + 1, 3]), count=rng.choice([0, 0, rounds, rounds, 2, 3, 2 * rounds]))
    case["ask"] = ask
    return case if fit(rows, ask, case) else None


def small(rng, rows, ask):
    case = dict(rows=rows, met=[], procs=[0, 1], ask=ask)
    n = max(r[0] for r in rows)
    threads = rng.random() < 0.3
    case["conc"] = gamma.concretize(rng, rows, [], locs=[[q, 0 if threads else None] for q in range(n)])
    case["procs"] = list(range(n))
    case["ask"] = dict(ask, proc=case["procs"])
    return case if fit(rows, case["ask"], case) else None


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    got, r = tlc.generate("MC_Patterns", dict(Calls=7, MaxCost=1, Every=3, Widths={0, 3}, Counts={0, 2, 3}) if tier == "quick" else
                          dict(Calls=7, MaxCost=2, Every=3, Widths={0, 3, 4}, Counts={0, 2, 3}))
    rep.add_tlc("generation", r)
    sm = [s for s in (small(rng, rows, ask) for rows, ask in got) if s]
    keep = 200 if tier == "quick" else 3000
    if len(sm) > keep:
        sm = rng.sample(sm, keep)
    rnd = []
    while len(rnd) < (500 if tier == "quick" else 8000):
        c = make(rng)
        if c:
            rnd.append(c)
    for c in sm + rnd:
        c["limit"] = 400
    return [("TLC, loops with all small costs", sm), ("random loops", rnd)]


def conf(case):
    return ("Conf_Patterns", ())


def weight(rec):
    return len(rec["rows"]) * 120


def observe(case):
    t = gamma.make_trace(case)
    conc, ask = case["conc"], case["ask"]
    n = len(t.events)
    col = ask["col"] - 1
    metric = gamma.derived_name(case, col, ".exc" if ask["exclusive"] else ".inc")
    if col > 0:
        (t.calc_exc_metrics if ask["exclusive"] else t.calc_inc_metrics)()
    kw = {}
    if ask["count"]:
        kw["iterations"] = ask["count"]
    if ask["window"]:
        kw["window_size"] = ask["window"]
    if ask["process"] != 0 or conc["seed"] % 2:
        kw["process"] = ask["process"]
    if metric != "time.exc" or conc["seed"] % 3:
        kw["metric"] = metric
    before = list(gamma.make_trace(case).events.columns)
    got = t.detect_pattern(conc["names"][0], **kw)
    kept = True
    patterns = []
    for p in got:
        patterns.append([gamma.index_cell(i, n) for i in p.index])
        for k, i in enumerate(p.index):
            for c in before:
                a, b = p[c].iloc[k], t.events[c].iloc[i] if 0 <= i < n else None
                if not (a == b or (gamma.is_missing(a) and gamma.is_missing(b))):
                    kept = False
    return dict(rows=case["rows"], met=gamma.model_cols(case), ask=ask,
                obs=dict(rows=gamma.project_rows(t.events, case), patterns=patterns, kept=kept))


def corrupt(rec):
    for p in rec["obs"]["patterns"]:
        if len(p) > 1:
            p.pop()
            return rec
    return None

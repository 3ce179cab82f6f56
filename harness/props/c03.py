"""Location independence."""
import random

from .. import gamma
from . import stack
from .stack import ASSUMPTIONS  # noqa: F401


def design(tier):
    q = [dict(name="2 locations", consts=dict(MaxRows=4, NLoc=2, NName=2, WithOther=True, Readings=0), must=stack.MUST),
         dict(name="3 locations", consts=dict(MaxRows=4, NLoc=3, NName=1, WithOther=False, Readings=0))]
    if tier == "thorough":
        q += [dict(name="2 locations, 5 rows", consts=dict(MaxRows=5, NLoc=2, NName=2, WithOther=False, Readings=0)),
              dict(name="3 locations, 5 rows", consts=dict(MaxRows=5, NLoc=3, NName=2, WithOther=False, Readings=0))]
    return [dict(module="MC_CallStack", invariants=["InvLocation", "InvPairing", "InvHierarchy"], workers=8, timeout=3000, **d) for d in q]


def variants(rng, rows, tier):
    """Orders of row numbers (1-based) and clock shifts per location."""
    nq = max(r[0] for r in rows)
    out = []
    for q in range(1, nq + 1):
        if nq <= 3 or rng.random() < 0.4:
            out.append(dict(locs=[q], shift=[0] * nq))
    for _ in range(2):
        span = rows[-1][3] + 1
        out.append(dict(locs=list(range(1, nq + 1)), shift=[rng.choice([0, 0, 1, span // 2, span]) for _ in range(nq)]))
    if nq > 2:
        out.append(dict(locs=sorted(rng.sample(range(1, nq + 1), nq - 1)), shift=[0] * nq))
    for v in out:
        own = [[i + 1 for i, r in enumerate(rows) if r[0] == q] if q in v["locs"] else [] for q in range(1, nq + 1)]
        order, pos = [], [0] * nq
        while True:
            live = [q for q in range(nq) if pos[q] < len(own[q])]
            if not live:
                break
            key = lambda q: rows[own[q][pos[q]] - 1][3] + v["shift"][q]  # noqa: E731
            t = min(key(q) for q in live)
            q = rng.choice([q for q in live if key(q) == t])
            order.append(own[q][pos[q]])
            pos[q] += 1
        v["order"] = order
    return [v for v in out if v["order"]]


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    plans = [(3, 2, 2, False), (4, 2, 1, False)] if tier == "quick" else [(4, 2, 2, True), (5, 2, 2, False), (4, 3, 2, False), (6, 2, 1, False)]
    small = []
    for rows in stack.recordings(tier, rep, plans):
        if max(r[0] for r in rows) < 2:
            continue
        rows = gamma.retime(rng, rows)
        m = gamma.random_met(rng, rows, 1)
        small.append(dict(rows=rows, met=m, conc=gamma.concretize(rng, rows, m, huge=True)))
    rnd = []
    while len(rnd) < (250 if tier == "quick" else 4000):
        rows = gamma.random_rows(rng, max_rows=80 if len(rnd) % 10 else 200)
        if max(r[0] for r in rows) < 2:
            continue
        m = gamma.random_met(rng, rows, 1)
        rnd.append(dict(rows=rows, met=m, conc=gamma.concretize(rng, rows, m, huge=True)))
    large = [c for c in stack.big_cases(rng, tier, True, huge=True) if max(r[0] for r in c["rows"]) > 1]
    for c in large:
        if len(c["met"]) != 1:
            c["met"] = gamma.random_met(rng, c["rows"], 1)
            c["conc"] = gamma.concretize(rng, c["rows"], c["met"], huge=True)
    for c in small + rnd + large:
        c["variants"] = variants(rng, c["rows"], tier)
    return [("TLC, all recordings of small size", small), ("random recorder", rnd), ("large recordings", large)]


def conf(case):
    return ("Conf_Location", ())


def weight(rec):
    return len(rec["variants"]) * stack.weight(rec)


def compute(case):
    t = gamma.make_trace(case)
    t.create_cct()
    t.calc_exc_metrics()
    t.calc_inc_metrics()
    df, n = t.events, len(case["rows"])
    nm = {x: i + 1 for i, x in enumerate(case["conc"]["names"])}
    by_node = {}
    path = []
    nodes = df["Graph_Node"].tolist()
    # a node has no name of its own: it has the name of the events that refer to it
    for v, name in zip(nodes, df["Name"].tolist()):
        if not gamma.is_missing(v):
            by_node.setdefault(id(v), set()).add(nm.get(name, 0))
    for v in nodes:
        p = []
        while not gamma.is_missing(v) and len(p) < 1000:
            p.append(sorted(by_node.get(id(v), {-1})))
            v = v.parent
        path.append(p)
    ks = range(1 + len(case["met"]))
    return dict(
        mate=[gamma.index_cell(v, n) for v in df["_matching_event"].tolist()],
        par=[gamma.index_cell(v, n) for v in df["_parent"].tolist()],
        dep=[gamma.index_cell(v, n, offset=0, none=-1) for v in df["_depth"].tolist()],
        kids=[stack.kids_cell(v) for v in df["_children"].tolist()],
        inc=[[gamma.cell(v, 0, gamma.col_unit(case, k)) for v in df[gamma.derived_name(case, k, ".inc")].tolist()] for k in ks],
        exc=[[gamma.cell(v, 0, gamma.col_unit(case, k)) for v in df[gamma.derived_name(case, k, ".exc")].tolist()] for k in ks],
        path=path,
    )


def observe(case):
    rows, conc = case["rows"], case["conc"]
    rec = dict(rows=rows, obs=compute(case), variants=[])
    for v in case["variants"]:
        sub = dict(rows=[[rows[i - 1][0], rows[i - 1][1], rows[i - 1][2], rows[i - 1][3] + v["shift"][rows[i - 1][0] - 1]] for i in v["order"]],
                   met=[[m[i - 1] for i in v["order"]] for m in case["met"]],
                   conc=dict(conc, types=[conc["types"][i - 1] for i in v["order"]]))
        rest = sorted(set(range(1, len(rows) + 1)) - set(v["order"]))
        rec["variants"].append(dict(order=v["order"], schedule=v["order"] + rest, obs=compute(sub)))
    return rec


def corrupt(rec):
    rec["variants"] = rec["variants"][-1:]
    o = rec["variants"][0]["obs"]
    o["dep"][0] += 1
    return rec

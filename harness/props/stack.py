"""Common to the properties decided with CallStack (C01, C02, C04, C05)."""
import random

from .. import gamma, tlc

INV = ["InvPairing", "InvHierarchy", "InvInclusive", "InvExclusive", "InvLocation"]
MUST = ["DoPairEnter", "DoPairLeave", "DoPairStray", "DoSkipOther", "DoNestSkip", "DoNestEnter", "DoNestLeave"]


def design(tier, inv=INV, readings=0):
    q = [
        dict(name="2 locations", consts=dict(MaxRows=4, NLoc=2, NName=2, WithOther=True, Readings=0), must=MUST),
        dict(name="1 location", consts=dict(MaxRows=6, NLoc=1, NName=2, WithOther=False, Readings=0)),
    ]
    if readings:
        q.append(dict(name="readings", consts=dict(MaxRows=3, NLoc=1, NName=2, WithOther=False, Readings=1)))
    if tier == "thorough":
        q = [
            dict(name="2 locations", consts=dict(MaxRows=5, NLoc=2, NName=2, WithOther=True, Readings=0), must=MUST),
            dict(name="3 locations", consts=dict(MaxRows=4, NLoc=3, NName=3, WithOther=False, Readings=0)),
            dict(name="1 location", consts=dict(MaxRows=8, NLoc=1, NName=2, WithOther=False, Readings=0)),
            dict(name="1 location, 3 names", consts=dict(MaxRows=6, NLoc=1, NName=3, WithOther=False, Readings=0)),
        ]
        if readings:
            q.append(dict(name="readings", consts=dict(MaxRows=4, NLoc=1, NName=2, WithOther=False, Readings=1)))
    return [dict(module="MC_CallStack", invariants=inv, workers=8, timeout=3000, **d) for d in q]


def recordings(tier, rep, plans=None):
    """All small recordings, from TLC."""
    plans = plans or (
        [(4, 1, 2, True), (3, 2, 2, False), (6, 1, 1, False)] if tier == "quick" else
        [(6, 1, 2, False), (4, 1, 2, True), (4, 2, 2, False), (8, 1, 1, False), (5, 1, 3, False)])
    out = []
    for n, loc, nm, oth in plans:
        got, r = tlc.generate("MC_CallStack", dict(MaxRows=n, NLoc=loc, NName=nm, WithOther=oth, Readings=0))
        rep.add_tlc("generation", r)
        out += got
    return out


def trace_cases(tier, seed, rep, met=False, nested=False, numbers=None, **conc):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    small = []
    for rows in recordings(tier, rep):
        rows = gamma.retime(rng, rows)
        m = gamma.random_met(rng, rows) if met else []
        small.append(dict(rows=rows, met=m, conc=gamma.concretize(rng, rows, m, **{"huge": True, **conc})))
    n = numbers or (700 if tier == "quick" else 12000)
    rnd = []
    for k in range(n):
        big = 60 if k % 10 else 200
        if tier == "thorough" and k % 100 == 0:
            big = 900
        rows = gamma.random_rows(rng, nested=nested, max_rows=big)
        m = gamma.random_met(rng, rows) if met else []
        rnd.append(dict(rows=rows, met=m, conc=gamma.concretize(rng, rows, m, **{"huge": True, **conc})))
    large = big_cases(rng, tier, met, **{"huge": True, **conc}) + abyss(rng, tier, met, **conc) + again_cases(rng, tier, met, **conc)
    return [("TLC, all recordings of small size", small), ("random recorder", rnd), ("large recordings", large)]


def big_cases(rng, tier, met, rounds=1, **conc):
    """A recording of each large kind."""
    out = []
    for k in range(rounds if tier == "quick" else 8 * rounds):
        for kind in gamma.BIG:
            rows = gamma.big_rows(rng, kind, 1 if tier == "quick" or k else 2)
            m = gamma.random_met(rng, rows) if met else []
            out.append(dict(rows=rows, met=m, conc=gamma.concretize(rng, rows, m, **conc)))
    return out


def abyss(rng, tier, met, **conc):
    """More calls open at once than a recursive function could follow."""
    out = []
    for k in range(1 if tier == "quick" else 6):
        rows = gamma.big_rows(rng, "abyss")
        m = gamma.random_met(rng, rows, 1) if met else []
        out.append(dict(rows=rows, met=m, conc=gamma.concretize(rng, rows, m, **conc)))
    return out


def complete(rows):
    """Whether no call is open at the end."""
    open_ = {}
    for q, e, n, _ in rows:
        st = open_.setdefault(q, [])
        if e == 0:
            st.append(n)
        elif e == 1 and n in st:
            del st[len(st) - 1 - st[::-1].index(n)]
    return not any(open_.values())


def again_cases(rng, tier, met, **conc):
    """Tens of thousands of rows: a recording that leaves no call open comes after many of the same.
    What it is has to be the same as if it were alone, with rows numbered from where it begins."""
    out = []
    for total in ([70000] if tier == "quick" else [35000, 70000, 70000, 140000]):
        rows = []
        while not (rows and complete(rows)):
            rows = gamma.random_rows(rng, rng.choice(["tree", "wide", "deep"]), nested=True, max_rows=60)
        m = gamma.random_met(rng, rows) if met else []
        out.append(dict(rows=rows, met=m, conc=gamma.concretize(rng, rows, m, **conc), lead=total // len(rows)))
    return out


def last(df, case):
    """The table, or the part of it that is judged, with references to rows counted from its beginning."""
    lead, n = case.get("lead", 0), len(case["rows"])
    if not lead:
        return df
    if len(df) != (lead + 1) * n:
        return df
    out = df.iloc[lead * n:].copy()
    move = lambda v: v if gamma.is_missing(v) else v - lead * n  # noqa: E731
    for c in ("_matching_event", "_parent"):
        if c in out.columns:
            out[c] = [move(v) for v in df[c].tolist()[lead * n:]]
    if "_children" in out.columns:
        out["_children"] = [v if gamma.is_missing(v) else [move(x) for x in v] for v in df["_children"].tolist()[lead * n:]]
    out.index = [i - lead * n for i in out.index]
    return out


def base_rec(case, df):
    return dict(rows=case["rows"], met=gamma.model_cols(case),
                obs=dict(rows=gamma.project_rows(df, case), met=gamma.project_cols(df, case)))


def weight(rec):
    return len(rec["rows"]) * (10 + 2 * len(rec["rows"]) // 10)


def mates(df, rec, n):
    rec["obs"]["mate"] = [gamma.index_cell(v, n) for v in df["_matching_event"].tolist()]


def kids_cell(v):
    if gamma.is_missing(v):
        return []
    if not isinstance(v, (list, tuple)) and not hasattr(v, "tolist"):
        return [-9]
    return [gamma.index_cell(x, 0, none=-8) for x in list(v)]


def bump(seq):
    """Corrupts the last entry of a sequence of numbers or cells."""
    if not seq:
        return False
    x = seq[-1]
    seq[-1] = x + 1 if isinstance(x, int) else [x[0] + 1] if x else [7]
    return True


ASSUMPTIONS = [
    "times that are not whole are below 2^53 units, so that they and the times of partners are exact floating point numbers (whole times may be as large as 64 bits allow)",
    "traces have the event table's index 0, 1, 2, ... as all readers produce it, and are in order of time",
]

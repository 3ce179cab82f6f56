"""The calling context tree."""
from .. import gamma
from . import stack

ASSUMPTIONS = stack.ASSUMPTIONS[1:]


def design(tier):
    inv = ["OneNodePerContext", "NodesAreContexts", "NestedContexts"]
    must = ["DoEnterKnown", "DoEnterNew", "DoLeaveOpen", "DoPass"]
    q = [dict(name="2 locations", consts=dict(MaxRows=4, NLoc=2, NName=2, WithOther=True), must=must),
         dict(name="1 location", consts=dict(MaxRows=6, NLoc=1, NName=2, WithOther=False))]
    if tier == "thorough":
        q = [dict(name="2 locations", consts=dict(MaxRows=6, NLoc=2, NName=2, WithOther=False), must=must[:3]),
             dict(name="3 locations", consts=dict(MaxRows=5, NLoc=3, NName=2, WithOther=True), must=must),
             dict(name="1 location", consts=dict(MaxRows=8, NLoc=1, NName=2, WithOther=False))]
    return [dict(module="MC_Context", invariants=inv, properties=["TreeGrows"], workers=8, timeout=3000, **d) for d in q]


def cases(tier, seed, rep):
    return stack.trace_cases(tier, seed, rep)


def conf(case):
    return ("Conf_Context", ())


weight = stack.weight


def tree_obs(df, cct, n):
    """The tree and the node column, nodes numbered by their first row."""
    num, order = {}, []

    def add(v):
        if id(v) not in num:
            num[id(v)] = len(order) + 1
            order.append(v)
        return num[id(v)]

    col = df["Graph_Node"].tolist()
    node = [0 if gamma.is_missing(v) else add(v) for v in col]
    referenced = len(order)
    seen = {}
    todo = list(cct.roots)
    while todo:          # also nodes that no row refers to
        v = todo.pop()
        if id(v) in seen:
            continue
        seen[id(v)] = v
        add(v)
        todo += list(v.children)
    reps = []
    for v in order:
        if not any(v == w for w in reps):
            reps.append(v)
    return dict(
        node=node, unreferenced=len(order) - referenced, distinct=len(reps),
        parent=[0 if v.parent is None else num.get(id(v.parent), -1) for v in order],
        level=[gamma.index_cell(v.get_level(), 0, offset=0, none=-1) for v in order],
        kids=[[num.get(id(w), -1) for w in v.children] for v in order],
        roots=[num.get(id(v), -1) for v in cct.roots],
    )


def observe(case):
    t = gamma.make_trace(case)
    if not case.get("via", {}).get("cct"):
        t.create_cct()
    df = stack.last(t.events, case)
    rec = dict(rows=case["rows"], obs=tree_obs(df, t.cct, len(case["rows"])))
    rec["obs"]["rows"] = gamma.project_rows(df, case)
    return rec


def corrupt(rec):
    o = rec["obs"]
    if not o["level"]:
        return None
    o["level"][-1] += 1
    return rec

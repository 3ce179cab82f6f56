"""Common ancestors, paths and levels in forests of nodes."""
import random

from .. import gamma, tlc

ASSUMPTIONS = ["nodes have distinct ids, as in every tree the library builds"]


def design(tier):
    n = 5 if tier == "quick" else 7
    return [dict(name="forests of %d nodes" % n, module="MC_Ancestors", consts=dict(MaxNodes=n), workers=8, timeout=3000,
                 invariants=["LevelsRight", "MetRight", "MetSymmetric", "PathRight"],
                 must=["DoGrowRoot", "DoGrowChild", "DoAskMeet", "DoAskPath", "ClimbDeeper", "ClimbBoth", "ClimbPath"])]


def questions(rng, up, few=None):
    n = len(up)
    pairs = [[x, y] for x in range(1, n + 1) for y in range(0, n + 1)]
    floors = [[x, f] for x in range(1, n + 1) for f in range(-2, min(n, 9))]
    if few and len(pairs) > few:
        pairs = rng.sample(pairs, few)
        pairs += [[y, x] for x, y in pairs[: few // 2] if y]
    if few and len(floors) > few:
        floors = rng.sample(floors, few)
    rng.shuffle(pairs)
    return dict(up=up, pairs=pairs, floors=floors, seed=rng.randint(0, 10**9))


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    got, r = tlc.generate("MC_Ancestors", dict(MaxNodes=5 if tier == "quick" else 6))
    rep.add_tlc("generation", r)
    small = [questions(rng, up) for up in got]
    rnd = []
    for k in range(150 if tier == "quick" else 3000):
        n = rng.randint(6, 60) if k % 10 else 250
        kind = rng.choice(["any", "chain", "two", "recent"])
        up = [0]
        for i in range(1, n):
            if kind == "chain":
                up.append(i if rng.random() < 0.95 else rng.randint(0, i))
            elif kind == "two":
                up.append(0 if i == 1 else rng.randint(max(1, i - 3), i))
            elif kind == "recent":
                up.append(rng.randint(max(0, i - 5), i))
            else:
                up.append(rng.randint(0 if rng.random() < 0.1 else 1, i))
        rnd.append(questions(rng, up, 40))
    for k in range(1 if tier == "quick" else 5):       # deeper than recursive functions could follow
        up = [0]
        for i in range(1, rng.randint(1100, 1300)):
            up.append(i if rng.random() < 0.99 else rng.randint(max(1, i - 3), i))
        rnd.append(questions(rng, up, 8))
    trees = []
    for k in range(80 if tier == "quick" else 1500):
        rows = gamma.random_rows(rng)
        trees.append(dict(rows=rows, met=[], conc=gamma.concretize(rng, rows), seed=rng.randint(0, 10**9)))
    return [("TLC, all small forests", small), ("random forests", rnd), ("calling context trees of random recordings", trees)]


def conf(case):
    return ("Conf_Ancestors", ())


def weight(rec):
    n = len(rec["up"])
    return (len(rec["obs"]["meets"]) + len(rec["obs"]["paths"])) * (10 + n // 4)


def forest(case):
    from pipit.graph import Node

    rng = random.Random(case["seed"])
    up = case["up"]
    ids = list(range(len(up)))
    if rng.random() < 0.5:
        ids = rng.sample(range(0, 10 * len(up)), len(up))
    nodes = []
    lv = []
    explicit = rng.random() < 0.3 and len(up) < 1000
    for i, p in enumerate(up):
        parent = None if p == 0 else nodes[p - 1]
        lv.append(0 if p == 0 else lv[p - 1] + 1)
        v = Node(ids[i], parent, lv[i]) if explicit else Node(ids[i], parent)
        if parent is not None:
            parent.add_child(v)
        nodes.append(v)
    return nodes


def tree(case):
    """The nodes of a trace's tree, parents first."""
    t = gamma.make_trace(case)
    t.create_cct()
    nodes = []
    todo = list(t.cct.roots)
    while todo:
        v = todo.pop(0)
        nodes.append(v)
        if len(nodes) > 10000:
            break
        todo += list(v.children)
    num = {id(v): i + 1 for i, v in enumerate(nodes)}
    up = [0 if v.parent is None else num[id(v.parent)] for v in nodes]
    q = questions(random.Random(case["seed"]), up, 60)
    return nodes, up, q["pairs"], q["floors"]


def observe(case):
    if "up" in case:
        nodes, up, pairs, floors = forest(case), case["up"], case["pairs"], case["floors"]
    else:
        nodes, up, pairs, floors = tree(case)
    num = {id(v): i + 1 for i, v in enumerate(nodes)}
    meets, paths = [], []
    for x, y in pairs:
        v = nodes[x - 1].get_intersection(None if y == 0 else nodes[y - 1])
        meets.append([x, y, 0 if v is None else num.get(id(v), -1)])
    for x, f in floors:
        paths.append([x, f, [num.get(id(v), -1) for v in nodes[x - 1].get_node_list(f)]])
    return dict(up=up, obs=dict(level=[gamma.index_cell(v.get_level(), 0, offset=0, none=-1) for v in nodes], meets=meets, paths=paths))


def corrupt(rec):
    if not rec["obs"]["meets"]:
        return None
    rec["obs"]["meets"][-1][2] += 1
    return rec

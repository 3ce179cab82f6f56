"""Options."""
import random

from .. import tlc

ASSUMPTIONS = ["option values are valid as the documentation of their validators says; values whose validity it leaves open (URL schemes in capitals) are not set"]

# per option: values by number (0 is the default), and invalid ones
POOL = {
    "log_level": (["INFO", "DEBUG", "WARNING", "ERROR", "CRITICAL"],
                  ["info", "TRACE", "", None, 10, ["INFO"], "INFO ", True, b"INFO", "INFODEBUG", 0, ("DEBUG",)]),
    "notebook_url": (["http://localhost:8888", "https://example.org/x?y#z", "http://127.0.0.1", "https://a", "http://http://x"],
                     ["ftp://x", "", None, 5, "localhost:8888", [], True, b"http://x", " http://x", "http:/x", "https", 8888.0, ["http://x"], "xhttp://a"]),
}
# more options, with the library's other validators
EXTRA = {
    "depth": ("int_validator", [5, 1, 2, 10**12], [0, -1, True, "5", 5.0, None, [5]]),
    "indent": ("int_validator", [3, 0, -4, 7], [False, "0", 1.5, None]),
    "colors": ("bool_validator", [True, False], [1, 0, "True", None, "", []]),
    "title": ("str_validator", ["t", "", "other", "x y"], [None, 5, b"t", ["t"], True]),
    "ratio": ("float_validator", [0.5, 0.0, -1.25, 1e300], [1, "0.5", None, True]),
}
UNKNOWN = ["nope", None, "", "LOG_LEVEL", "log_level ", 5, "default"]


def design(tier):
    return [dict(name="two options", module="MC_Config", consts=dict(MaxOps=4 if tier == "quick" else 5, Values={1, 2} if tier == "quick" else {1, 2}),
                 invariants=["MostRecent", "AlwaysValid"], properties=["FailingChangesNothing", "OthersAlone"],
                 must=["DoGet", "DoSet", "DoReset", "DoResetAll"], workers=8, timeout=3000)]


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    got, r = tlc.generate("MC_Config", dict(MaxOps=3 if tier == "quick" else 4, Values={1, 2}))
    rep.add_tlc("generation", r)
    small = []
    for log in got:
        opts = rng.sample(["log_level", "notebook_url"], 2) if rng.random() < 0.8 else rng.sample(sorted(POOL) + sorted(EXTRA), 2)
        name = dict(a=1, b=2)
        small.append(dict(opts=opts, seed=rng.randint(0, 10**9), ops=[[k, name.get(o, 0), x] for k, o, x in log]))
    rnd = []
    for _ in range(400 if tier == "quick" else 6000):
        opts = sorted(POOL) + rng.sample(sorted(EXTRA), rng.randint(0, 5))
        rng.shuffle(opts)
        ops = []
        for _ in range(rng.randint(1, 25)):
            k = rng.random()
            o = rng.randint(0, len(opts)) if rng.random() < 0.3 else rng.randint(1, len(opts))
            ops.append(["set", o, rng.choice([0, 1, 2, 3, 4, -2, -2])] if k < 0.6 else ["get", o, 0] if k < 0.75 else ["reset", o, 0] if k < 0.92 else ["all", 0, 0])
        rnd.append(dict(opts=opts, seed=rng.randint(0, 10**9), ops=ops))
    return [("TLC, all short histories", small), ("random histories", rnd)]


def conf(case):
    return ("Conf_Config", ())


def weight(rec):
    return 30 * len(rec["steps"])


def observe(case):
    import importlib

    import pipit.util.config as config

    config = importlib.reload(config)
    rng = random.Random(case["seed"])
    values, bad = {}, {}
    opts = []
    for o in case["opts"]:
        if o in POOL:
            values[o], bad[o] = POOL[o]
        else:
            v, values[o], bad[o] = EXTRA[o]
            try:      # there is no public way to add an option: without this one, the option is left out
                config.registered_options[o] = {"default": values[o][0], "validator": getattr(config, v)}
                config.global_config[o] = values[o][0]
                config.get_option(o)
            except Exception:
                continue
        opts.append(o)

    def number(o, v):
        for i, w in enumerate(values[o]):
            if type(v) is type(w) and v == w:
                return i
        return -7

    def current():
        out = []
        for o in opts:
            try:
                out.append(number(o, config.get_option(o)))
            except Exception:
                out.append(-8)
        return out

    first = current()
    steps = []
    for kind, k, x in case["ops"]:
        o = case["opts"][k - 1] if k else rng.choice(UNKNOWN)
        if k and o not in opts:
            continue
        k = opts.index(o) + 1 if k else 0
        if kind == "set":
            if k and x >= len(values[o]):
                x = 0
            v = rng.choice(["INFO", "http://x", 1, None]) if not k else rng.choice(bad[o]) if x < 0 else values[o][x]
        raised, ret = False, -1
        try:
            if kind == "get":
                got = config.get_option(o)
                ret = number(o, got) if k else -6
            elif kind == "set":
                config.set_option(o, v)
            elif kind == "reset":
                config.reset_option(o)
            else:
                config.reset_option("all")
        except Exception:
            raised = True
        steps.append([kind, k, x, dict(raised=raised, ret=ret, cur=current())])
    return dict(valid=[list(range(len(values[o]))) for o in opts], first=first, steps=steps)


def corrupt(rec):
    if not rec["steps"]:
        return None
    rec["steps"][-1][3]["cur"][-1] += 1
    return rec

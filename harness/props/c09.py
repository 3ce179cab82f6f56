"""Idle time."""
import random

from .. import gamma
from . import profile
from .profile import ASSUMPTIONS, design, weight  # noqa: F401

NAMES = ["Idle", "idle", "MPI_Wait", "MPI_Waitall", "MPI_Recv", "MPI_Irecv", "MPI_Waitany", "foo", "main", "Idle2", "MPI_Send", "Wait"]
MPI = ["MPI_Wait", "MPI_Waitall", "MPI_Recv"]


def prep(rng, c):
    c["by"] = "Name"
    c["what"] = [["inc", 1]]
    nn = max(r[2] for r in c["rows"])
    names = rng.sample(NAMES, min(nn, len(NAMES)))
    c["conc"]["names"] = names + ["f%d" % i for i in range(nn - len(names))]
    c["asks"] = []
    for _ in range(rng.randint(1, 4)):
        lst = None if rng.random() < 0.4 else rng.sample(c["conc"]["names"] + ["nothing"], rng.randint(0, min(3, nn)))
        if lst and rng.random() < 0.2:
            lst.append(lst[0])
        c["asks"].append([lst, rng.choice([True, False, None])])
    c["before"] = rng.choice(["", "", "", "inc", "exc", "flat"])


def cases(tier, seed, rep):
    return profile.make_cases(tier, seed, rep, 500, prep)


def conf(case):
    return ("Conf_Profile", (("Prop", "C09"),))


def observe(case):
    t = profile.make_trace(case)
    num, grp = profile.groups([case])
    pnum, _ = profile.procs(case)
    if case["before"] == "inc":
        t.calc_inc_metrics(["Timestamp (ns)"])
    elif case["before"] == "exc":
        t.calc_exc_metrics()
    elif case["before"] == "flat":
        t.flat_profile()
    ids = lambda l: sorted({num[(x,)] for x in l if (x,) in num})  # noqa: E731
    asks = []
    for lst, mpi in case["asks"]:
        kw = {}
        own = None if lst is None else list(lst)
        if own is not None:
            kw["idle_functions"] = own
        if mpi is not None:
            kw["mpi_events"] = mpi
        df = t.idle_time(**kw)
        got = [[pnum.get(p, 0), gamma.cell(v, 0, case["conc"]["unit"])] for p, v in zip(df["Process"].tolist(), df["Idle Time"].tolist())]
        asks.append(dict(default=lst is None, idle=ids(lst or []), mpi=bool(mpi), got=got, kept=own == lst))
    run, rows = profile.run_of(case, t, grp[0])
    return dict(runs=[run], what=case["what"], idle=ids(["Idle"]), mpi=ids(MPI), obs=dict(rows=[rows], asks=asks))


def corrupt(rec):
    rec["obs"]["asks"][-1]["got"][-1][1][0] += 1
    return rec

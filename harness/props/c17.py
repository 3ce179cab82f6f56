"""Reading CSV files."""
import csv
import io
import os
import random

from .. import gamma, tlc, work

ASSUMPTIONS = ["processes are numbers below 2^31", "seconds are read to a hundredth of a nanosecond, other decimal numbers to 12 significant digits"]
NAMES = ["main", "foo", "MPI_Send", "f(int, char*)", "nan", "NA", "null", "None", "007", "1e5", "operator\"\"", "a b", "naïve λ", "True", "-", "inf", "std::vector<int, x>"]


def design(tier):
    return [dict(name="all small files", module="MC_CsvReader", consts=dict(MaxLines=5 if tier == "quick" else 7, MaxTime=3), invariants=["EveryLineOnce", "InOrder"],
                 must=["Read"], workers=8, timeout=3000)]


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    got, r = tlc.generate("MC_CsvReader", dict(MaxLines=4 if tier == "quick" else 5, MaxTime=2 if tier == "quick" else 3))
    rep.add_tlc("generation", r)
    small = [concretize(rng, g) for g in got]
    rnd = []
    for k in range(400 if tier == "quick" else 8000):
        n = rng.randint(1, 40) if k % 3 else rng.randint(17, 150)
        span = rng.choice([0, 1, 2, 5, 20, 1000])
        f = [rng.randint(0, span) for _ in range(n)]
        if rng.random() < 0.4:
            f.sort()
        elif rng.random() < 0.3:
            f.sort(reverse=True)
        rnd.append(concretize(rng, f))
    return [("TLC, all small files", small), ("random files", rnd)]


def concretize(rng, f):
    seconds = rng.random() < 0.4
    if seconds:
        base, unit = rng.choice([(0, 1), (0, 10**9), (10**9, 5 * 10**8), (0, 1000), (1_000_000_000_000, 1000)])
    else:
        base, unit = rng.choice([(0, 1), (0, 1000), (17, 1), (10**18, 1), (0, 0.5), (100, 0.25), (10**12, 1), (-50, 1)])
    return dict(file=f, seconds=seconds, base=base, unit=unit, space=rng.random() < 0.6, crlf=rng.random() < 0.2, last=rng.random() < 0.8,
                thread=rng.random() < 0.4, extra=rng.sample(["metric", "note", "Attributes", "count"], rng.randint(0, 3)), shuffle=rng.random() < 0.4,
                blank=rng.random() < 0.1, seed=rng.randint(0, 10**9), same=rng.random() < 0.3)


def table(case):
    """Columns, in the order of the file, and the lines' values as they are written, and as they are meant."""
    rng = random.Random(case["seed"])
    names = rng.sample(NAMES, rng.randint(1, 6))
    cols = ["Timestamp (s)" if case["seconds"] else "Timestamp (ns)", "Event Type", "Name", "Process"]
    if case["thread"]:
        cols.append("Thread")
    cols += case["extra"]
    if case["shuffle"]:
        rng.shuffle(cols)
    written, meant = [], []
    for t in case["file"]:
        ns = case["base"] + case["unit"] * t
        v = {}
        if case["seconds"]:
            whole, part = divmod(int(ns), 10**9)
            # a column of whole seconds only may be written without decimals
            v["Timestamp (s)"] = "%d" % whole if part == 0 and case["same"] else ("%d.%09d" % (whole, part)).rstrip("0") + "0"
        else:
            v["Timestamp (ns)"] = repr(ns)
        v["Event Type"] = rng.choice(["Enter", "Leave", "Instant", "Loop"])
        v["Name"] = rng.choice(names)
        v["Process"] = str(rng.choice([0, 1, 2, 100, 2**31 - 1]))
        v["Thread"] = str(rng.randint(0, 4))
        v["metric"] = rng.choice(["", "1.5", "-3", "1e10", "0.125"])
        v["note"] = rng.choice(["x", "a, b", "", "q\"q", "y z"])
        v["Attributes"] = rng.choice(["{'msg_length': 8, 'receiver': 1}", "{}"])
        v["count"] = str(rng.randint(-5, 10**6))
        m = dict(v)
        m[cols[[c.startswith("Timestamp") for c in cols].index(True)]] = ns
        written.append([v[c] for c in cols])
        meant.append([m[c] for c in cols])
    return cols, written, meant


def text(case, cols, written):
    out = io.StringIO()
    end = "\r\n" if case["crlf"] else "\n"
    sep = ", " if case["space"] else ","

    def cell(s):
        return '"%s"' % s.replace('"', '""') if any(x in s for x in ',"\n') else s
    lines = [sep.join(cell(c) for c in cols)] + [sep.join(cell(x) for x in r) for r in written]
    if case["blank"]:
        lines.insert(1 + len(written) // 2, "")
    out.write(end.join(lines))
    if case["last"]:
        out.write(end)
    return out.getvalue()


def same(col, got, want, seconds):
    if col.startswith("Timestamp") or col in ("metric", "count", "Process", "Thread"):
        if want == "":
            return gamma.is_missing(got)
        f = gamma.frac(got)
        w = gamma.Fraction(want)
        if f is None:
            return False
        if col == "Timestamp (ns)":
            # nanoseconds as they are; seconds to a hundredth of a nanosecond
            return abs(f - w) <= (gamma.Fraction(1, 100) if seconds else 0)
        return abs(f - w) <= abs(w) / 10**12
    if want == "" and col != "Name":
        return gamma.is_missing(got) or got == ""
    return isinstance(got, str) and got == want


def observe(case):
    from pipit.trace import Trace

    cols, written, meant = table(case)
    tmp = work.place()
    path = os.path.join(tmp, "recording.csv")
    try:
        with open(path, "wb") as f:
            f.write(text(case, cols, written).encode("utf-8"))
        df = Trace.from_csv(path).events
    finally:
        if os.path.exists(path):
            os.unlink(path)
        os.rmdir(tmp)
    want = ["Timestamp (ns)" if c == "Timestamp (s)" else c for c in cols]
    columns = sorted(df.columns) == sorted(want) and list(df.index) == list(range(len(df)))
    free = {}
    order = []
    if sorted(df.columns) == sorted(want):
        data = {c: df[c].tolist() for c in want}
        for k in range(len(df)):
            # lines with the same values all through stand for each other, in their order
            hit = [i for i in range(len(meant)) if i not in free and all(same(c, data[c][k], meant[i][j], case["seconds"]) for j, c in enumerate(want))]
            if hit:
                free[hit[0]] = True
            order.append(hit[0] + 1 if hit else 0)
    return dict(file=case["file"], obs=dict(columns=bool(columns), order=order))


def conf(case):
    return ("Conf_CsvReader", ())


def weight(rec):
    return len(rec["file"]) * (10 + len(rec["file"]) // 4)


def corrupt(rec):
    o = rec["obs"]["order"]
    if len(o) < 2:
        return None
    o[-1], o[-2] = o[-2], o[-1]
    return rec

"""Writing Projections logs from recorded events, and telling what was read from them.

A case:  logs  [[[kind, time, x, detail, end], ..] per processor]
         conc  how to make it concrete
"""
import gzip
import os

from . import gamma

ENTRIES = ["main(CkArgMsg* impl_msg)", "recv(PingMsg* impl_msg)", "f()", "dummy_thread_ep", "g(int a, double b)", "maindone()", "h(const bool &x)",
           "Idle work", "update Location", "a->b", "(unnamed)"]
EVENTS = ["user event", "solve", "phase one", "Idle time", "naive"]
STATS = ["statistic", "bytes per step", "memory"]
NAMES = {14: "Idle", 16: "Pack", 18: "Unpack", 26: "User Supplied", 28: "User Supplied Note", 29: "User Supplied Bracketed Note", 27: "Memory Usage",
         10: "Message Receive", 4: "Enque", 5: "Deque", 11: "Trace", 8: "Interrupt", 6: "Computation", 98: "User Event Pair"}
KNOWN = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 21, 26, 27, 28, 29, 32, 98, 99, 100]
UNKNOWN = [20, 22, 31, 33]
BY_ENTRY, BY_EVENT, BY_STAT = (1, 2, 3, 21), (13, 100), (32,)
DETAILS = 3
DIMS = [-1, 1, 2, 3, 0, 6]
NOTES = ["a note", "x", "1 2 3", "over there -> here"]


def concretize(rng, logs):
    for l in logs:
        for r in l:
            k = r[0]
            r[2] = rng.randint(1, 4) if k in BY_ENTRY else rng.randint(1, 3) if k in BY_EVENT + BY_STAT else 0
            r[3] = rng.randint(1, DETAILS)
    ids = rng.sample(range(0, 300), 4)
    return dict(base=rng.choice([0, 0, 77991, 10**9, 10**12 + 1]), step=rng.choice([1, 1, 10, 1000]), entries=rng.sample(ENTRIES, 4), ids=ids,
                events=rng.sample(EVENTS, 3), eids=rng.sample(range(0, 60), 3), stats=rng.sample(STATS, 3), sids=rng.sample(range(0, 60), 3),
                dims=[rng.choice(DIMS) for _ in range(4)], papi=rng.choice([0, 0, 1, 2]), name=rng.choice(["pingpong.prj", "a.out", "x"]),
                create_cct=rng.random() < 0.2)


def micro(conc, t):
    return conc["base"] + conc["step"] * t


def record(conc, r, pe):
    """The line of a record, and its details as they are read (None if none)."""
    k, t, x, d, end = r
    time = micro(conc, t)
    event, msglen, mtype, other = 10 * d + 1, 100 * d + 2, 20 + d, (pe + d) % 5 + 40
    if k in BY_ENTRY:
        x0 = conc["ids"][x - 1]
    elif k in BY_EVENT + (98, 99):
        x0 = conc["eids"][max(x, 1) - 1]
    elif k == 29:
        x0 = conc["eids"][(d - 1) % 3]
    else:
        x0 = conc["sids"][max(x, 1) - 1]
    perf = [1000 * d + 3 + i for i in range(conc["papi"])]
    if k in (14, 15, 16, 17, 18, 19):
        return "%d %d %d" % (k, time, other), {"From PE": other}
    if k in (6, 7, 11, 12):
        return "%d %d" % (k, time), None
    if k == 26:
        return "%d %d" % (k, 5 * d), {"User Supplied": str(5 * d)}
    if k == 28:
        n = NOTES[d - 1]
        return '%d %d %d "%s' % (k, time, len(n), n), {"Note": n}
    if k == 29:
        n = NOTES[d]
        return '%d %d %d %d %d "%s' % (k, time, micro(conc, end), x0, len(n), n), {"Event ID": x0, "Event Name": conc["events"][(d - 1) % 3], "Note": n}
    if k == 27:
        return "%d %d %d" % (k, msglen, time), {"Memory Usage": msglen}
    if k == 1:
        return "1 %d %d %d %d %d %d %d" % (mtype, x0, time, event, other, msglen, 7 * d), {
            "From PE": other, "MType": mtype, "Entry Type": "Create", "Message Length": msglen, "Event ID": event, "Send Time": 7000 * d}
    if k == 21:
        dest = list(range(d, 2 * d))
        return "21 %d %d %d %d %d %d %d %d %s" % (mtype, x0, time, event, other, msglen, 7 * d, len(dest), " ".join(map(str, dest))), {
            "From PE": other, "Message Type": mtype, "Entry Type": "Multicast", "Message Length": msglen, "Event ID": event, "Send Time": 7000 * d,
            "Destinatopn PEs": dest}
    if k == 2:
        n = conc["dims"][x - 1]
        n = 4 if n < 0 else n
        index = [30 * d + i for i in range(n)]
        return " ".join(map(str, [2, mtype, x0, time, event, other, msglen, 9 * d] + index + [11 * d] + perf)), {
            "From PE": other, "Message Type": mtype, "Entry Type": "Processing", "Event ID": event, "Message Length": msglen, "Receive Time": 9 * d,
            "ID List": index, "CPU Start Time": 11 * d, "perf counts list": perf}
    if k == 3:
        return " ".join(map(str, [3, mtype, x0, time, event, other, msglen, 11 * d] + perf)), None
    if k == 10:
        return "10 %d %d %d %d %d" % (mtype, time, event, other, msglen), {"From PE": other, "Message Type": mtype, "Event ID": event, "Message Length": msglen}
    if k in (4, 5):
        return "%d %d %d %d %d" % (k, mtype, time, event, other), {"From PE": other, "Message Type": mtype, "Event ID": event}
    if k in (8, 9):
        return "%d %d %d %d" % (k, time, event, other), {"From PE": other, "Event ID": event}
    if k == 13:
        return "13 %d %d %d %d" % (x0, time, event, other), {"From PE": other, "Event ID": event, "Event Type": "User Event"}
    if k == 100:
        return "100 %d %d %d %d %d" % (x0, time, event, other, d), {"From PE": other, "Event ID": event, "Nested ID": d, "Event Type": "User Event Pair"}
    if k in (98, 99):
        return "%d %d %d %d %d %d" % (k, x0, time, event, other, d), {"From PE": other, "Event ID": event, "Nested ID": d, "User Event Name": conc["events"][0]}
    if k == 32:
        return "32 %d %d %s %d %d" % (time, 3 * d, d + 0.5, other, x0), {"From PE": other, "User Time": 3000 * d, "Stat": d + 0.5, "Event Type": "User Stat"}
    return "%d %d 1 2 3 4 5 6 7 8" % (k, time), None


def write(case, path):
    """Writes the directory."""
    conc, logs = case["conc"], case["logs"]
    os.makedirs(path)
    nd = len(conc["dims"])
    lines = ["PROJECTIONS_ID ", "VERSION 11.0", "PROCESSORS %d" % len(logs), "TOTAL_CHARES %d" % nd, "TOTAL_EPS 4", "TOTAL_MSGS 1"]
    lines += ["TOTAL_EVENTS %d" % len(conc["events"])]
    lines += ['CHARE %d "chare %d" %d' % (i, i, n) for i, n in enumerate(conc["dims"])]
    lines += ['ENTRY CHARE %d "%s" %d 0' % (conc["ids"][i], n, i) for i, n in enumerate(conc["entries"])]
    lines += ["MESSAGE 0 64"]
    lines += ["EVENT %d %s" % (i, n) for i, n in zip(conc["eids"], conc["events"])]
    lines += ["TOTAL_STATS %d" % len(conc["stats"])]
    lines += ["STAT %d %s" % (i, n) for i, n in zip(conc["sids"], conc["stats"])]
    if conc["papi"]:
        lines += ["TOTAL_PAPI_EVENTS %d" % conc["papi"]] + ["PAPI_EVENT %d PAPI_%d" % (i, i) for i in range(conc["papi"])]
    lines.append("END")
    with open(os.path.join(path, conc["name"] + ".sts"), "w") as f:
        f.write("\n".join(lines) + "\n")
    for pe, l in enumerate(logs):
        with gzip.open(os.path.join(path, "%s.%d.log.gz" % (conc["name"], pe)), "wt", compresslevel=1) as f:
            f.write("PROJECTIONS-RECORD %d\n" % len(l))
            for r in l:
                f.write(record(conc, r, pe)[0] + "\n")


def tidy(v):
    """Texts of notes and events are compared without the blanks and quotes around them."""
    return v.strip(' "') if isinstance(v, str) else v


def agree(got, want):
    if want is None:
        return gamma.is_missing(got)
    if not isinstance(got, dict):
        return False
    got = {("Destinatopn PEs" if k == "Destination PEs" else k): tidy(v) for k, v in got.items()}
    if "Note" in want and "Note" in got:   # the length of a note stands before it
        n = got["Note"].split('"')[-1].strip()
        return dict(got, Note=n) == dict(want, Note=want["Note"].split('"')[-1].strip())
    return got == want


def project(case, df):
    conc = case["conc"]
    cols = {c: df[c].tolist() for c in df.columns}
    names = {}
    for i, n in enumerate(conc["entries"]):
        names[n] = [1, i + 1]
    for i, n in enumerate(conc["events"]):
        names[n] = [2, i + 1]
    for i, n in enumerate(conc["stats"]):
        names[n] = [3, i + 1]
    for k, n in NAMES.items():
        names[n] = [k, 0]
    types = {"Enter": 0, "Leave": 1, "Instant": 2}
    cache = {}
    rows = []
    for k in range(len(df)):
        f = gamma.frac(cols["Timestamp (ns)"][k])
        if f == -1:
            t = -1
        else:
            t = None if f is None else (f / 1000 - conc["base"]) / conc["step"]
            t = int(t) if t is not None and t.denominator == 1 and 0 <= t < 2**30 else -7
        ty = types.get(cols["Event Type"][k], 3)
        c, x = names.get(tidy(str(cols["Name"][k])), [0, 0])
        f = gamma.frac(cols["Process"][k])
        pe = int(f) if f is not None and f.denominator == 1 else -1
        at = cols["Attributes"][k]
        detail = 0
        if not gamma.is_missing(at):
            detail = -1
            for d in range(1, DETAILS + 1):
                for kind in candidates(c, ty, at):
                    key = kind, x, d, pe
                    if key not in cache:
                        cache[key] = record(conc, [kind, 0, x, d, 0], pe)[1]
                    if cache[key] is not None and agree(at, cache[key]):
                        detail = d
        rows.append([t, ty, c, x, detail, pe + 1])
    known = ["Timestamp (ns)", "Event Type", "Name", "Process", "Attributes"]
    return rows, all(c in cols for c in known) and list(df.index) == list(range(len(df)))


def candidates(c, ty, at):
    """Kinds of records a row of a name and a type may come from"""
    if c == 1:
        return [2] if ty == 0 else [3] if ty == 1 else [21] if at.get("Entry Type") == "Multicast" else [1]
    if c == 2:
        return [100] if at.get("Event Type") == "User Event Pair" else [13]
    if c == 3:
        return [32]
    return [c + 1] if ty == 1 and c + 1 in KNOWN and c not in (29,) else [c]


def random_logs(rng, max_pes=5, max_recs=40):
    logs = []
    for p in range(rng.choice([1, 1, 2, 2, 3, max_pes])):
        n = rng.choice([0, 1, 2, max_recs]) if rng.random() < 0.4 else rng.randint(0, max_recs)
        t = 0
        recs = []
        kinds = rng.sample(KNOWN + UNKNOWN, rng.randint(1, 6)) if rng.random() < 0.3 else KNOWN + UNKNOWN
        if rng.random() < 0.7:
            recs.append([6, 0, 0, 1, 0])
        for _ in range(n):
            t += rng.choice([0, 0, 0, 1, 1, 2, 10])
            recs.append([rng.choice(kinds), t, 0, 1, t + rng.choice([0, 0, 1, 5])])
        if rng.random() < 0.5:
            recs.append([7, t, 0, 1, 0])
        logs.append(recs)
    return logs

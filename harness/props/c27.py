"""Definitions of OTF2 archives."""
import os
import random
import shutil

from .. import gamma, work

ASSUMPTIONS = ["the order of the rows is not judged", "of the clock's properties, only resolution and offset are judged",
               "strings are numbered by the OTF2 library's own writer, other definitions by any numbers below 2^31", "communicators between two groups are left out (the library cannot write them)"]

# kind -> (registry, numbers shared with, fields: name -> l(iteral), e(num), r(eference), R(eferences), L(iterals))
SCHEMA = {
    "String": ("string", [("name", "l")]),
    "ClockProperties": (None, [("timer_resolution", "l"), ("global_offset", "l")]),
    "Attribute": ("attribute", [("name", "l"), ("description", "l"), ("type", "e")]),
    "SystemTreeNode": ("system_tree_node", [("name", "l"), ("class_name", "l"), ("parent", "r")]),
    "LocationGroup": ("location_group", [("name", "l"), ("location_group_type", "e"), ("system_tree_parent", "r"), ("creating_location_group", "r")]),
    "Location": ("location", [("name", "l"), ("type", "e"), ("number_of_events", "l"), ("group", "r")]),
    "Region": ("region", [("name", "l"), ("canonical_name", "l"), ("description", "l"), ("region_role", "e"), ("paradigm", "e"), ("region_flags", "e"),
                          ("source_file", "l"), ("begin_line_number", "l"), ("end_line_number", "l")]),
    "Callsite": ("callsite", [("source_file", "l"), ("line_number", "l"), ("entered_region", "r"), ("left_region", "r")]),
    "Callpath": ("callpath", [("parent", "r"), ("region", "r")]),
    "Group": ("group", [("name", "l"), ("group_type", "e"), ("paradigm", "e"), ("group_flags", "e"), ("members", "R")]),
    "MetricMember": ("metric_member", [("name", "l"), ("description", "l"), ("metric_type", "e"), ("metric_mode", "e"), ("value_type", "e"), ("base", "e"),
                                       ("exponent", "l"), ("unit", "l")]),
    "MetricClass": ("metric_class", [("members", "R"), ("occurrence", "e"), ("recorder_kind", "e")]),
    "MetricInstance": ("metric_instance", [("metric_class", "r"), ("recorder", "r"), ("metric_scope", "e"), ("scope", "r")]),
    "Comm": ("comm", [("name", "l"), ("group", "r"), ("parent", "r"), ("flags", "e")]),
    "Parameter": ("parameter", [("name", "l"), ("parameter_type", "e")]),
    "RmaWin": ("rma_win", [("name", "l"), ("comm", "r"), ("flags", "e")]),
    "CartDimension": ("cart_dimension", [("name", "l"), ("size", "l"), ("cart_periodicity", "e")]),
    "CartTopology": ("cart_topology", [("name", "l"), ("communicator", "r"), ("dimensions", "R")]),
    "CartCoordinate": ("cart_coordinate", [("topology", "r"), ("rank", "l"), ("coordinates", "L")]),
    "SourceCodeLocation": ("source_code_location", [("file", "l"), ("line_number", "l")]),
    "CallingContext": ("calling_context", [("region", "r"), ("source_code_location", "r"), ("parent", "r")]),
    "InterruptGenerator": ("interrupt_generator", [("name", "l"), ("interrupt_generator_mode", "e"), ("base", "e"), ("exponent", "l"), ("period", "l")]),
    "LocationProperty": ("location_property", [("location", "r"), ("name", "l"), ("type", "e"), ("value", "l")]),
    "LocationGroupProperty": ("location_group_property", [("location_group", "r"), ("name", "l"), ("type", "e"), ("value", "l")]),
    "SystemTreeNodeProperty": ("system_tree_node_property", [("system_tree_node", "r"), ("name", "l"), ("type", "e"), ("value", "l")]),
    "Paradigm": ("paradigm", [("paradigm", "e"), ("name", "l"), ("paradigm_class", "e")]),
    "ParadigmProperty": ("paradigm_property", [("paradigm", "e"), ("property", "e"), ("type", "e"), ("value", "l")]),
    "SystemTreeNodeDomain": ("system_tree_node_domain", [("system_tree_node", "r"), ("system_tree_node_domain", "e")]),
    "MetricClassRecorder": ("metric_class_recorder", [("metric_class", "r"), ("recorder", "r")]),
    "IoParadigm": ("io_paradigm", [("identification", "l"), ("name", "l"), ("io_paradigm_class", "e"), ("io_paradigm_flags", "e")]),
    "IoRegularFile": ("io_regular_file", [("name", "l"), ("scope", "r")]),
    "IoDirectory": ("io_directory", [("name", "l"), ("scope", "r")]),
    "IoFileProperty": ("io_file_property", [("io_file", "r"), ("name", "l"), ("type", "e"), ("value", "l")]),
    "IoHandle": ("io_handle", [("name", "l"), ("file", "r"), ("io_paradigm", "r"), ("io_handle_flags", "e"), ("comm", "r"), ("parent", "r")]),
    "IoPreCreatedHandleState": ("io_pre_created_handle_state", [("io_handle", "r"), ("io_access_mode", "e"), ("io_status_flags", "e")]),
    "CallingContextProperty": ("calling_context_property", [("calling_context", "r"), ("name", "l"), ("type", "e"), ("value", "l")]),
    "CallpathParameter": ("callpath_parameter", [("callpath", "r"), ("parameter", "r"), ("type", "e"), ("value", "l")]),
}
KINDS = list(SCHEMA)
UNNUMBERED = {"ClockProperties", "CartCoordinate", "LocationProperty", "LocationGroupProperty", "SystemTreeNodeProperty", "Paradigm", "ParadigmProperty", "SystemTreeNodeDomain",
              "MetricClassRecorder", "IoFileProperty", "IoPreCreatedHandleState", "CallingContextProperty", "CallpathParameter"}
SHARED = {"MetricInstance": "MetricClass", "IoDirectory": "IoRegularFile"}
REGISTRY = {"MetricClass": "_metrics", "IoRegularFile": "_io_files", "CartTopology": "_cart_topologies"}
MORE_FIELDS = {"ClockProperties": ["trace_length", "realtime_timestamp"]}
ENUM = {"Attribute.type": ("Type", ["STRING", "INT64", "DOUBLE", "UINT64"]), "LocationGroup.location_group_type": ("LocationGroupType", ["PROCESS"]),
        "Location.type": ("LocationType", ["CPU_THREAD", "CPU_THREAD", "GPU", "METRIC"]),
        "Region.region_role": ("RegionRole", ["FUNCTION", "LOOP", "PARALLEL", "POINT2POINT", "BARRIER"]), "Region.paradigm": ("Paradigm", ["NONE", "MPI", "OPENMP", "USER"]),
        "Region.region_flags": ("RegionFlag", ["NONE", "DYNAMIC", "PHASE"]), "Group.group_type": ("GroupType", ["LOCATIONS", "REGIONS", "COMM_LOCATIONS", "COMM_GROUP", "METRIC", "COMM_SELF"]),
        "Group.paradigm": ("Paradigm", ["MPI", "NONE", "OPENMP"]), "Group.group_flags": ("GroupFlag", ["NONE", "GLOBAL_MEMBERS"]),
        "MetricMember.metric_type": ("MetricType", ["OTHER", "PAPI", "RUSAGE", "USER"]), "MetricMember.metric_mode": ("MetricMode", ["ABSOLUTE_POINT", "ACCUMULATED_START"]),
        "MetricMember.value_type": ("Type", ["DOUBLE", "INT64", "UINT64"]), "MetricMember.base": ("Base", ["DECIMAL", "BINARY"]),
        "MetricClass.occurrence": ("MetricOccurrence", ["SYNCHRONOUS_STRICT", "ASYNCHRONOUS", "SYNCHRONOUS"]), "MetricClass.recorder_kind": ("RecorderKind", ["CPU", "UNKNOWN", "GPU"]),
        "Comm.flags": ("CommFlag", ["NONE", "CREATE_DESTROY_EVENTS"]), "Parameter.parameter_type": ("ParameterType", ["STRING", "INT64", "UINT64"]),
        "RmaWin.flags": ("RmaWinFlag", ["NONE", "CREATE_DESTROY_EVENTS"]), "CartDimension.cart_periodicity": ("CartPeriodicity", ["FALSE", "TRUE"]),
        "InterruptGenerator.interrupt_generator_mode": ("InterruptGeneratorMode", ["TIME", "COUNT"]), "InterruptGenerator.base": ("Base", ["DECIMAL", "BINARY"]),
        "Paradigm.paradigm_class": ("ParadigmClass", ["PROCESS", "THREAD_FORK_JOIN", "ACCELERATOR"]), "SystemTreeNodeDomain.system_tree_node_domain": ("SystemTreeDomain", ["MACHINE", "NUMA", "CORE"]),
        "IoParadigm.io_paradigm_class": ("IoParadigmClass", ["SERIAL", "PARALLEL"]), "IoParadigm.io_paradigm_flags": ("IoParadigmFlag", ["NONE", "OS"]),
        "IoHandle.io_handle_flags": ("IoHandleFlag", ["NONE", "PRE_CREATED", "ALL_PROXY"]), "IoPreCreatedHandleState.io_access_mode": ("IoAccessMode", ["READ_ONLY", "WRITE_ONLY", "READ_WRITE"]),
        "IoPreCreatedHandleState.io_status_flags": ("IoStatusFlag", ["NONE", "APPEND"])}


def design(tier):
    n = 3 if tier == "quick" else 4
    return [dict(name="references", module="MC_Definitions", consts=dict(MaxDefs=n), invariants=["OneRowEach", "RefsResolve"],
                 must=["DoDefine", "DoRead", "DoLook", "DoKindDone", "AllRead"], workers=8, timeout=3000)]


# ---------------------------------------------------------------- recorder

def enum(rng, kind, field):
    t, ms = ENUM[kind + "." + field]
    return {"e": [t, rng.choice(ms)]}


def random_defs(rng):
    words = gamma.names(rng, 12) + ["", "Region 0", "Location 1", "String 3", "None", "Enter", "7", "a.c", "b.h"]
    numbers, out, keys = {}, [], set()

    def word():
        w = rng.choice(words)
        return w if rng.random() < 0.6 else "%s %d" % (w, rng.randint(0, 9))

    def add(kind, **fields):
        key = (kind, str(sorted(((f, v) for f, v in fields.items() if not ((kind.endswith("Property") or kind == "CallpathParameter") and f in ("type", "value"))), key=str)))
        if key in keys:
            return None
        keys.add(key)
        if kind in UNNUMBERED:
            n = -1
        else:
            n = fresh(SHARED.get(kind, kind))
        out.append([kind, n, fields])
        return {"r": [kind, n]}

    def pick(refs, none=0.0):
        return None if not refs or rng.random() < none else rng.choice(refs)

    few = rng.random() < 0.3
    plain = rng.random() < 0.5          # numbered from zero in order of creation

    def fresh(reg):
        used = numbers.setdefault(reg, set())
        n = len(used)
        if not plain:
            n = rng.choice([x for x in list(range(20)) + ([99, 2**16 + rng.randint(0, 5), 2**31 - 2] if reg != "IoParadigm" else [254]) if x not in used])
        used.add(n)
        return n

    amount = lambda n: rng.randint(0, 1 if few else n)  # noqa: E731
    keep = lambda x, xs: xs.append(x) if x else None  # noqa: E731
    attrs, nodes, groups, locs, regs, mems, mets, classes, comms, dims, scls, ccs, paths, pars, files, handles, iops = ([] for _ in range(17))
    for _ in range(amount(4)):
        keep(add("Attribute", name=word(), description=word(), type=enum(rng, "Attribute", "type")), attrs)
    for _ in range(1 + amount(4)):
        keep(add("SystemTreeNode", name=word(), class_name=word(), parent=pick(nodes, 0.3)), nodes)
    for _ in range(1 + amount(5)):
        keep(add("LocationGroup", name=word(), location_group_type=enum(rng, "LocationGroup", "location_group_type"), system_tree_parent=pick(nodes), creating_location_group=None), groups)
    for k in range(1 + amount(6)):
        t = enum(rng, "Location", "type") if k else {"e": ["LocationType", "CPU_THREAD"]}
        keep(add("Location", name=word(), type=t, number_of_events=0, group=pick(groups)), locs)
    for _ in range(1 + amount(6)):
        name = word()
        keep(add("Region", name=name, canonical_name=name if rng.random() < 0.5 else word(), description=word(), region_role=enum(rng, "Region", "region_role"),
                 paradigm=enum(rng, "Region", "paradigm"), region_flags=enum(rng, "Region", "region_flags"), source_file=rng.choice([None, word()]),
                 begin_line_number=rng.choice([0, 1, 17]), end_line_number=rng.choice([0, 20, 100000])), regs)
    for _ in range(amount(3)):
        add("Callsite", source_file=word(), line_number=rng.randint(0, 50), entered_region=pick(regs), left_region=pick(regs))
    for _ in range(amount(4)):
        keep(add("Callpath", parent=pick(paths, 0.3), region=pick(regs)), paths)
    for _ in range(amount(4)):
        keep(add("MetricMember", name=word(), description=word(), exponent=rng.choice([0, 3, -6]), unit=rng.choice(["", "B", "s", "#"]),
                 **{f: enum(rng, "MetricMember", f) for f in ("metric_type", "metric_mode", "value_type", "base")}), mems)
    for _ in range(amount(3) if mems else 0):
        keep(add("MetricClass", members=[rng.choice(mems) for _ in range(rng.randint(1, 3))], occurrence=enum(rng, "MetricClass", "occurrence"),
                 recorder_kind=enum(rng, "MetricClass", "recorder_kind")), classes)
    mets += classes
    for _ in range(amount(3) if classes else 0):
        scope = rng.choice([locs, groups, nodes])
        name = {"Location": "LOCATION", "LocationGroup": "LOCATION_GROUP", "SystemTreeNode": "SYSTEM_TREE_NODE"}[scope[0]["r"][0]]
        keep(add("MetricInstance", metric_class=pick(classes), recorder=pick(locs), metric_scope={"e": ["MetricScope", name]}, scope=pick(scope)), mets)
    worlds = {}
    gs = []
    for _ in range(amount(6)):
        t = rng.choice(ENUM["Group.group_type"][1])
        par = rng.choice(ENUM["Group.paradigm"][1])
        members = {"LOCATIONS": locs, "REGIONS": regs, "METRIC": mets, "COMM_SELF": []}.get(t)
        if t == "COMM_LOCATIONS":
            if par in worlds:
                continue
            members = rng.sample(locs, rng.randint(1, len(locs)))
            worlds[par] = members
        elif t == "COMM_GROUP":
            if par not in worlds:
                continue
            members = rng.sample(worlds[par], rng.randint(0, len(worlds[par])))
        else:
            members = [rng.choice(members) for _ in range(rng.randint(0, 4))] if members else []
        keep(add("Group", name=word(), group_type={"e": ["GroupType", t]}, paradigm={"e": ["Paradigm", par]}, group_flags=enum(rng, "Group", "group_flags"), members=members), gs)
    for _ in range(amount(3) if gs else 0):
        keep(add("Comm", name=word(), group=pick(gs), parent=pick(comms, 0.4), flags=enum(rng, "Comm", "flags")), comms)
    for _ in range(amount(2)):
        keep(add("Parameter", name=word(), parameter_type=enum(rng, "Parameter", "parameter_type")), pars)
    if comms:
        for _ in range(amount(2)):
            add("RmaWin", name=word(), comm=pick(comms), flags=enum(rng, "RmaWin", "flags"))
        for _ in range(amount(3)):
            keep(add("CartDimension", name=word(), size=rng.randint(1, 9), cart_periodicity=enum(rng, "CartDimension", "cart_periodicity")), dims)
        for _ in range(amount(2) if dims else 0):
            ds = [rng.choice(dims) for _ in range(rng.randint(1, 3))]
            t = add("CartTopology", name=word(), communicator=pick(comms), dimensions=ds)
            if t and rng.random() < 0.5:
                add("CartCoordinate", topology=t, rank=rng.randint(0, 5), coordinates=[rng.randint(0, 3) for _ in ds])
    for _ in range(amount(3)):
        keep(add("SourceCodeLocation", file=word(), line_number=rng.randint(0, 9)), scls)
    for _ in range(amount(4)):
        keep(add("CallingContext", region=pick(regs), source_code_location=pick(scls, 0.3), parent=pick(ccs, 0.3)), ccs)
    for _ in range(amount(2)):
        add("InterruptGenerator", name=word(), interrupt_generator_mode=enum(rng, "InterruptGenerator", "interrupt_generator_mode"),
            base=enum(rng, "InterruptGenerator", "base"), exponent=rng.choice([0, -3]), period=rng.randint(1, 99))
    # (a paradigm is named at most once: the name is that of an enumeration's member)
    for par in rng.sample(["MPI", "OPENMP", "CUDA", "SHMEM"], amount(4)):
        par = {"e": ["Paradigm", par]}
        add("Paradigm", paradigm=par, name=word(), paradigm_class=enum(rng, "Paradigm", "paradigm_class"))
        for _ in range(amount(1)):
            add("ParadigmProperty", paradigm=par, property={"e": ["ParadigmProperty", "COMM_NAME_TEMPLATE"]}, type={"e": ["Type", "STRING"]}, value=word())
    for _ in range(amount(2)):
        add("SystemTreeNodeDomain", system_tree_node=pick(nodes), system_tree_node_domain=enum(rng, "SystemTreeNodeDomain", "system_tree_node_domain"))
    for _ in range(amount(2) if classes else 0):
        add("MetricClassRecorder", metric_class=pick(classes), recorder=pick(locs))
    for _ in range(amount(2)):
        keep(add("IoParadigm", identification=word(), name=word(), io_paradigm_class=enum(rng, "IoParadigm", "io_paradigm_class"), io_paradigm_flags=enum(rng, "IoParadigm", "io_paradigm_flags")), iops)
    for _ in range(amount(4)):
        keep(add(rng.choice(["IoRegularFile", "IoDirectory"]), name=word(), scope=pick(nodes, 0.3)), files)
    for _ in range(amount(3) if iops and files else 0):
        keep(add("IoHandle", name=word(), file=pick(files), io_paradigm=pick(iops), io_handle_flags=enum(rng, "IoHandle", "io_handle_flags"), comm=pick(comms, 0.4), parent=pick(handles, 0.4)), handles)
    for h in handles:
        if rng.random() < 0.5:
            add("IoPreCreatedHandleState", io_handle=h, io_access_mode=enum(rng, "IoPreCreatedHandleState", "io_access_mode"), io_status_flags=enum(rng, "IoPreCreatedHandleState", "io_status_flags"))
    for _ in range(amount(2) if paths and pars else 0):
        add("CallpathParameter", callpath=pick(paths), parameter=pick(pars), type={"e": ["Type", "INT64"]}, value=rng.randint(-5, 5))
    for kind, field, refs in (("LocationProperty", "location", locs), ("LocationGroupProperty", "location_group", groups), ("SystemTreeNodeProperty", "system_tree_node", nodes),
                              ("IoFileProperty", "io_file", files), ("CallingContextProperty", "calling_context", ccs)):
        if not refs:
            continue
        for _ in range(amount(2)):
            if rng.random() < 0.5:
                add(kind, name=word(), type={"e": ["Type", "STRING"]}, value=word(), **{field: pick(refs)})
            else:
                add(kind, name=word(), type={"e": ["Type", "INT64"]}, value=rng.randint(-5, 5), **{field: pick(refs)})
    # numbers of events
    cpu = [n for k, n, f in out if k == "Location" and f["type"]["e"][1] == "CPU_THREAD"]
    events = [[rng.choice(cpu), rng.choice(sorted(numbers["Region"]))] for _ in range(rng.randint(1, 12))]
    for k, n, f in out:
        if k == "Location":
            f["number_of_events"] = 2 * sum(1 for q, r in events if q == n)
    return dict(defs=out, events=events, res=rng.choice([1, 1000, 10**9, 3 * 10**9]), first=rng.choice([0, 5, 10**12]))


def cases(tier, seed, rep):
    rng = random.Random("%s-%s" % (seed, rep.prop))
    return [("random definitions", [dict(random_defs(rng), workers=rng.choice([1, 1, 2])) for _ in range(400 if tier == "quick" else 6000)])]


def conf(case):
    return ("Conf_Definitions", ())


def weight(rec):
    return 40 * len(rec["defs"])


# ---------------------------------------------------------------- writing and reading

def write(case, path):
    """Writes the archive; returns the strings' numbers."""
    import otf2
    from otf2 import enums

    objs = {}

    def real(v):
        if isinstance(v, dict):
            return getattr(getattr(enums, v["e"][0]), v["e"][1]) if "e" in v else objs[tuple(v["r"])]
        if isinstance(v, list):
            return tuple(real(x) for x in v)
        return v

    tr = otf2.writer.Writer(path, timer_resolution=case["res"])
    try:
        D = tr.definitions
        for kind, n, fields in case["defs"]:
            kw = {f: real(fields[f]) for f, _ in SCHEMA[kind][1]}
            kw.pop("number_of_events", None)
            if kind == "MetricInstance":
                kw.pop("metric_scope")
            if n >= 0:
                reg = SHARED.get(kind, kind)
                getattr(D, REGISTRY.get(reg) or "_%ss" % SCHEMA[reg][0])._ref = n - 1
            if kind.endswith("Property") or kind == "CallpathParameter":
                obj = getattr(D, SCHEMA[kind][0])(*kw.values())
            else:
                obj = getattr(D, SCHEMA[kind][0])(**kw)
            if n >= 0:
                assert obj._ref == n, (kind, n, obj._ref)
                objs[kind, n] = obj
        t = case["first"]
        for q, r in case["events"]:
            w = tr.event_writer_from_location(objs["Location", q])
            w.enter(t, objs["Region", r])
            t += 1
            w.leave(t, objs["Region", r])
            t += 1
    finally:
        tr.close()
    return {s.name: s._ref for s in D._strings}


def strings_of(case):
    out = set()
    for kind, n, fields in case["defs"]:
        for f, t in SCHEMA[kind][1]:
            if t == "l" and isinstance(fields[f], str):
                out.add(fields[f])
    return out


def number(n):
    if gamma.is_missing(n):
        return -1
    return int(n) if isinstance(n, (int, float)) and n == int(n) and n >= 0 else -2


def observe(case):
    from pipit.trace import Trace

    lits = {}

    def lit(v, make):
        key = (type(v).__name__ if isinstance(v, (str, int)) else "other", v if isinstance(v, (str, int)) else repr(v))
        if key not in lits and make:
            lits[key] = len(lits) + 1
        return [0, lits.get(key, -1)]

    def recorded(v, t):
        if t == "e":
            return lit("%s.%s" % tuple(v["e"]), True)
        if t in ("R", "L"):
            return [3, [recorded(x, t.lower()) for x in v]]
        if v is None:
            return [2]
        return [1, KINDS.index(v["r"][0]) + 1, v["r"][1]] if t == "r" else lit(v, True)

    def seen(v, t):
        if t in ("R", "L"):
            return [3, [seen(x, t.lower()) for x in v]] if isinstance(v, tuple) else [0, -1]
        if v is None:
            return [2]
        if t == "r":
            p = v.split(" ") if isinstance(v, str) else []
            return [1, KINDS.index(p[0]) + 1, int(p[1])] if len(p) == 2 and p[0] in KINDS and p[1].isdigit() else [0, -1]
        return lit(v, False)

    tmp = work.place()
    try:
        path = os.path.join(tmp, "archive")
        refs = write(case, path)
        t = Trace.from_otf2(path, num_processes=case["workers"])
    finally:
        shutil.rmtree(tmp)
    defs = []
    names = strings_of(case)
    for s, n in sorted(refs.items(), key=lambda x: x[1]):
        defs.append([KINDS.index("String") + 1, n, [recorded(s, "l")]])
        names.discard(s)
    assert not names, names
    defs.append([KINDS.index("ClockProperties") + 1, -1, [recorded(case["res"], "l"), recorded(case["first"], "l")]])
    for kind, n, fields in case["defs"]:
        defs.append([KINDS.index(kind) + 1, n, [recorded(fields[f], ty) for f, ty in SCHEMA[kind][1]]])
    df = t.definitions
    rows = []
    for ty, n, at in zip(df["Definition Type"].tolist(), df["ID"].tolist(), df["Attributes"].tolist()):
        kind = KINDS.index(ty) + 1 if ty in KINDS else 0
        fields = []
        if kind:
            sch = SCHEMA[ty][1]
            if len(sch) == 1:
                at = {sch[0][0]: at}
            if isinstance(at, dict) and sorted(at) == sorted([f for f, _ in sch] + MORE_FIELDS.get(ty, [])):
                fields = [seen(at[f], x) for f, x in sch]
        rows.append([kind, number(n), fields])
    events = []
    ev = t.events
    for ty, nm, at in zip(ev["Event Type"].tolist(), ev["Name"].tolist(), ev["Attributes"].tolist()):
        if ty == "Enter":
            events.append([seen(at.get("region"), "r") if isinstance(at, dict) else [0, -1], lit(nm, False)[1]])
    return dict(defs=defs, obs=dict(rows=rows, columns=list(df.columns) == ["Definition Type", "ID", "Attributes"], events=events))


def corrupt(rec):
    rows = rec["obs"]["rows"]
    if rows[-1][2] and rows[-1][1] >= 0:
        rows[-1][1] += 1
        return rec
    rows.pop()
    return rec

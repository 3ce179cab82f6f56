"""Running TLC on the modules of /verif/spec, in a scratch directory."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith("=") else json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(value(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(value(x) for x in v) + ">>"
    raise TypeError(v)


def run(module, spec="Spec", consts=None, invariants=(), properties=(), constraints=(), view=None,
        workers=8, env=None, coverage=False, simulate=None, depth=None, seed=None, timeout=800, heap="6g",
        symmetry=None):
    """Runs TLC; returns its result. Raises MachineryError unless TLC came to an end."""
    tmp = tempfile.mkdtemp(prefix="vtlc")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), tmp)
        lines = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
        if consts:
            lines.append("CONSTANTS")
            for k, v in consts.items():
                if isinstance(v, str) and v.startswith("<-"):
                    lines.append(" %s %s" % (k, v))
                else:
                    lines.append(" %s = %s" % (k, value(v)))
        for kw, xs in (("INVARIANT", invariants), ("PROPERTY", properties), ("CONSTRAINT", constraints)):
            for x in xs:
                lines.append(kw + " " + x)
        if view:
            lines.append("VIEW " + view)
        with open(os.path.join(tmp, "run.cfg"), "w") as f:
            f.write("\n".join(lines) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + tmp, "-cp", JARS, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", os.path.join(tmp, "states"), "-workers", str(workers),
               "-config", "run.cfg"]
        if coverage:
            cmd += ["-coverage", "1000"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd.append(module + ".tla")
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC ran out of time on %s %s" % (module, consts))
        out = p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res = dict(out=out, rc=p.returncode, states=0, distinct=0, actions={}, depth=0)
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        res["states"] = int(m.group(1).replace(",", ""))
        res["distinct"] = int(m.group(2).replace(",", ""))
    if simulate:
        for m in re.finditer(r"The number of states generated: (\d+)", out):
            res["states"] = int(m.group(1))
    for m in re.finditer(r"The depth of the complete state graph search is (\d+)", out):
        res["depth"] = int(m.group(1))
    for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
        a = res["actions"].setdefault(m.group(1), [0, 0])
        a[0] += int(m.group(2))
        a[1] += int(m.group(3))
    ok = p.returncode == 0 and ("No error has been found" in out or (simulate and "Error:" not in out))
    res["ok"] = bool(ok)
    return res


def strings(out, tag):
    """The strings printed by PrintT("<tag> " \\o ...)"""
    pre = '"' + tag + " "
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            yield json.loads(line)[len(tag) + 1:]


def design(module, invariants, consts, properties=(), workers=4, must=(), spec="Spec", constraints=(), timeout=800):
    """An exhaustive exploration that has to find nothing wrong."""
    r = run(module, spec=spec, consts=consts, invariants=invariants, properties=properties, workers=workers,
            coverage=True, constraints=constraints, timeout=timeout)
    if not r["ok"]:
        i = r["out"].find("Error:")
        raise MachineryError("the design check of %s %s failed:\n%s" % (module, consts, r["out"][i:i + 3000]))
    for a in must:
        if r["actions"].get(a, [0, 0])[1] == 0:
            raise MachineryError("action %s of %s was never taken with %s" % (a, module, consts))
    return r


def generate(module, consts, spec="GenSpec", simulate=None, depth=None, seed=None, timeout=800, workers=4):
    r = run(module, spec=spec, consts=consts, simulate=simulate, depth=depth, seed=seed, workers=1 if simulate else workers,
            timeout=timeout)
    if not r["ok"]:
        i = r["out"].find("Error:")
        raise MachineryError("generation by %s %s failed:\n%s" % (module, consts, r["out"][i:i + 3000]))
    got = sorted(set(strings(r["out"], "G")))
    return [json.loads(x) for x in got], r


UNDEFINED = re.compile(r"Attempted to|out of bounds|not in the domain|was not enumerable|does not (?:exist|satisfy)|no field|CHOOSE|incompatible|Overflow", re.I)


def judge(module, recs, consts=None, workers=8, timeout=800):
    """Verdicts of a conformance module: index of each record -> list of failing clauses.

    A record for which the specification has no value at all (an observation outside its types) is none of its behaviours."""
    left, out, last = list(range(len(recs))), {}, None
    for _ in range(6):
        verdicts, last, bad = judge_once(module, [recs[i] for i in left], consts, workers, timeout)
        for k, v in verdicts.items():
            out[left[k]] = v
        if bad is None:
            return out, last
        out[left[bad]] = ["outside-the-specification"]
        left = [i for k, i in enumerate(left) if k != bad]
        if not left:
            break
    for i in left:
        out.setdefault(i, [])
    return out, last


def judge_once(module, recs, consts, workers, timeout):
    tmp = tempfile.mkdtemp(prefix="vcases")
    try:
        path = os.path.join(tmp, "cases.ndjson")
        with open(path, "w") as f:
            for r in recs:
                f.write(json.dumps(r) + "\n")
        r = run(module, consts=consts, workers=workers, env={"CASES": path}, timeout=timeout)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    verdicts, count = {}, 0
    for s in strings(r["out"], "V"):     # "<case> [..]" or "<case>.<variant> [..]"
        i, rest = s.split(" ", 1)
        count += 1
        verdicts.setdefault(int(i.split(".")[0]) - 1, set()).update(json.loads(rest))
    expected = sum(len(x["variants"]) if "variants" in x else 1 for x in recs)
    if not r["ok"] or len(verdicts) != len(recs) or count != expected:
        i = r["out"].find("Error:")
        if i >= 0 and UNDEFINED.search(r["out"], i):
            m = re.search(r"^/\\ c = (\d+)$", r["out"][i:], re.M)
            if m and 1 <= int(m.group(1)) <= len(recs):
                return {}, r, int(m.group(1)) - 1
        raise MachineryError("conformance by %s came to %d verdicts for %d cases:\n%s"
                             % (module, len(verdicts), len(recs), r["out"][i:i + 3000] if i >= 0 else r["out"][-3000:]))
    return {k: sorted(v) for k, v in verdicts.items()}, r, None

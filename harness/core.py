"""Replaying cases in worker processes, collecting verdicts, reporting."""
import json
import os
import subprocess
import shutil
import sys
import tempfile
import time
import traceback

from . import tlc
from .tlc import MachineryError, HERE

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
NSHARD = max(1, min(8, os.cpu_count() or 1))


def replay(prop, cases, nshard=NSHARD, limit=500):
    """Runs every case through the real code. Returns index -> result."""
    tmp = tempfile.mkdtemp(prefix="vreplay")
    try:
        env = dict(os.environ)
        env["PYTHONPATH"] = REPO + ":" + HERE
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONPYCACHEPREFIX"] = os.path.join(tmp, "pyc")
        env["PYTHONHASHSEED"] = "0"
        env["TMPDIR"] = os.path.join(tmp, "scratch")
        env["OPENBLAS_NUM_THREADS"] = env["OMP_NUM_THREADS"] = "1"
        env["VERIF_WORKER_LIMIT"] = str(limit)
        env["HOME"] = tmp
        os.mkdir(env["TMPDIR"])
        todo = {i: c for i, c in enumerate(cases)}
        results = {}
        deaths = {}
        for attempt in range(6):
            if not todo:
                break
            shards = min(nshard, len(todo))
            keys = sorted(todo, key=lambda i: (deaths.get(i, 0), i))
            procs = []
            for s in range(shards):
                inp = os.path.join(tmp, "in%d_%d" % (attempt, s))
                out = os.path.join(tmp, "out%d_%d" % (attempt, s))
                with open(inp, "w") as f:
                    for i in keys[s::shards]:
                        f.write(json.dumps({"i": i, "case": todo[i]}) + "\n")
                log = open(os.path.join(tmp, "log%d_%d" % (attempt, s)), "wb")
                p = subprocess.Popen([PY, "-W", "ignore", "-m", "harness.worker", prop, inp, out], cwd=tmp, env=env,
                                     stdout=log, stderr=log, start_new_session=True)
                procs.append((p, out, log))
            all_ended = True
            for p, out, log in procs:
                try:
                    p.wait(timeout=limit + 200)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, 9)
                    p.wait()
                log.close()
                begun, ended = None, False
                if os.path.exists(out):
                    for line in open(out):
                        try:
                            d = json.loads(line)
                        except ValueError:
                            continue
                        if "end" in d:
                            ended = True
                        elif "begin" in d:
                            begun = d["begin"]
                        else:
                            results[d["i"]] = d
                            begun = None
                            todo.pop(d["i"], None)
                if not ended:
                    all_ended = False
                    if begun is None:
                        tail = open(log.name, "rb").read()[-2000:].decode("utf-8", "replace")
                        raise MachineryError("a worker of %s did not work:\n%s" % (prop, tail))
                    # it died in the middle of a case
                    deaths[begun] = deaths.get(begun, 0) + 1
                    if deaths[begun] > 1:
                        results[begun] = {"i": begun, "fail": "crashed", "msg": "the process died twice on this case"}
                        todo.pop(begun, None)
            if all_ended:
                break
        return results, len(todo)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = self.t1 = time.time()
        self.states = self.transitions = 0
        self.validated = 0
        self.samples, self.notes = [], {}
        self.assumptions = []
        self.failures = []   # (case, clauses, detail)
        self.known = []
        self.exhaustive = []

    def add_tlc(self, name, r):
        self.states += r["distinct"] or r["states"]
        self.transitions += r["states"]
        d = self.notes.setdefault("tlc", {})
        e = d.setdefault(name, {"states": 0, "transitions": 0})
        e["states"] += r["distinct"]
        e["transitions"] += r["states"]
        for a, (x, y) in r["actions"].items():
            e.setdefault("actions", {})[a] = e.get("actions", {}).get(a, 0) + y

    def clock(self, phase):
        now = time.time()
        self.notes.setdefault("seconds", {})[phase] = round(now - self.t1, 1)
        self.t1 = now

    def write(self, violations):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                   samples=self.samples[:4] or ["none"])
        cov.update(self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)


def known_findings():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("open", [])


def matches(finding, prop, clauses, case):
    """A listed finding covers the cases made to show it (tagged with its id), and the clauses it lists."""
    return finding["property"] == prop and case.get("kf") == finding["id"] and set(clauses) <= set(finding["clauses"])


def short(x, n=1500):
    s = json.dumps(x, ensure_ascii=False)
    return x if len(s) <= n else s[:n] + "..."


def run_property(prop, tier, seed, again=None):
    """again: the cases of a replay file, run and judged instead of new ones."""
    import importlib

    mod = importlib.import_module("harness.props." + prop.lower())
    rep = Report(prop, tier, seed)
    rep.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    # 1. design
    for d in mod.design(tier) if again is None else []:
        name = d.pop("name")
        r = tlc.design(**d)
        rep.add_tlc("design " + name, r)
    rep.clock("design")
    # 2. generation
    cases = []
    for src, cs in mod.cases(tier, seed, rep) if again is None else [("replay", again)]:
        for x in cs:
            x.setdefault("src", src)
            cases.append(x)
        rep.notes.setdefault("cases", {})[src] = rep.notes.get("cases", {}).get(src, 0) + len(cs)
    rep.clock("generation")
    # 3. replay
    limit = 400 if tier == "quick" else 5000
    results, left = replay(prop, cases, limit=limit)
    if left:
        rep.notes["cases_not_run"] = left
    rep.clock("replay")
    # 4. conformance
    groups = {}
    for i, r in sorted(results.items()):
        if "rec" in r:
            groups.setdefault(mod.conf(cases[i]), []).append(i)
    fails, trouble = {}, []
    for key, idx in groups.items():
        module, consts = key[0], dict(key[1])
        weight, chunk, chunks = 0, [], []
        for i in idx:
            w = mod.weight(results[i]["rec"]) if hasattr(mod, "weight") else 1
            if chunk and weight + w > 400000:
                chunks.append(chunk)
                weight, chunk = 0, []
            chunk.append(i)
            weight += w
        chunks.append(chunk)
        for chunk in chunks:
            try:
                verdicts, r = tlc.judge(module, [results[i]["rec"] for i in chunk], consts=consts,
                                        timeout=7200 if tier == "thorough" else 800)
            except MachineryError as e:     # raised below, unless there are violations anyway
                trouble.append(e)
                continue
            rep.add_tlc("conformance " + module, r)
            rep.validated += len(chunk)
            for k, v in verdicts.items():
                if v:
                    fails[chunk[k]] = v
        # the binding is alive: corrupted observations have to be rejected
        if hasattr(mod, "corrupt") and not trouble:
            bad = []
            for i in idx[:: max(1, len(idx) // 40)]:
                if i in fails:
                    continue
                b = mod.corrupt(json.loads(json.dumps(results[i]["rec"])))
                if b is not None:
                    bad.append(b)
            if bad:
                verdicts, r = tlc.judge(module, bad, consts=consts)
                miss = [k for k, v in verdicts.items() if not v]
                if miss:
                    trouble.append(MachineryError("a corrupted observation was accepted: %s" % json.dumps(bad[miss[0]])[:3000]))
                rep.notes["corrupted_observations_rejected"] = rep.notes.get("corrupted_observations_rejected", 0) + len(bad)
    for i, r in results.items():
        if "fail" in r:
            fails[i] = [r["fail"]]
            rep.validated += 1
    if trouble and not fails:
        raise trouble[0]
    rep.clock("conformance")
    # 5. report
    if again is not None:
        for i in range(len(cases)):
            print("case %d: %s" % (i, "fails %s" % fails[i] if i in fails else "holds"))
        if fails:
            print("VIOLATION property=%s replay=%s" % (prop, tier))
        return 1 if fails else 0
    step = max(1, len(cases) // 3)
    rep.samples = [short(dict(case=cases[i], rec=results.get(i, {}).get("rec"))) for i in range(0, len(cases), step)][:3]
    kf = known_findings()
    news = []
    for i in sorted(fails):
        if not any(matches(k, prop, fails[i], cases[i]) for k in kf):
            news.append(i)
    for k in kf:
        if k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rep.notes["failing_cases"] = len(news)
    rep.write(len(news))
    if not cases or not results:
        raise MachineryError("no cases")
    if not news:
        print("OK property=%s tier=%s cases=%d validated=%d states=%d wall=%.1fs"
              % (prop, tier, len(cases), rep.validated, rep.states, time.time() - rep.t0))
        return 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    news.sort(key=lambda i: len(json.dumps(cases[i])))
    path = os.path.join(HERE, "replays", "%s.json" % prop)
    with open(path, "w") as f:
        json.dump(dict(property=prop, failing=len(news),
                       cases=[dict(case=cases[i], clauses=fails[i], result=results[i]) for i in news[:10]]), f, indent=1)
    counts = {}
    for i in news:
        for cl in fails[i]:
            counts[cl] = counts.get(cl, 0) + 1
    print("failing cases: %d of %d; clauses: %s" % (len(news), len(results), counts))
    r0 = results[news[0]]
    if "fail" in r0:
        print("first: %s %s %s" % (r0["fail"], r0["msg"], r0.get("where", "")))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def main(argv):
    if len(argv) not in (3, 4) or (len(argv) == 4) != (argv[2] == "replay"):
        print("usage: check <property> quick|thorough\n       check <property> replay <file>")
        return 2
    prop, tier = argv[1], argv[2]
    again = None
    if tier == "replay":
        tier = argv[3]
        again = [c["case"] for c in json.load(open(tier))["cases"]]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return run_property(prop, tier, seed, again)
    except MachineryError as e:
        print("MACHINERY FAILURE: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        print("MACHINERY FAILURE", file=sys.stderr)
        return 2

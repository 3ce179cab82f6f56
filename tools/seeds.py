#!/usr/bin/env python3
"""Planted bugs.

  seeds.py validate [ID ..]   in a scratch copy of /repo: the patch applies, changes original lines, the tests pass with it, the
                              demonstration passes without it and fails with it
  seeds.py run [ID ..]        applies each patch to /repo, runs its property's quick check, undoes it; tells which were caught
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def original_lines(repo, patch):
    """Lines removed by the patch: how many are original, how many from our commits"""
    own = orig = 0
    path = None
    for line in open(patch):
        if line.startswith("--- a/"):
            path = line[6:].strip()
            blame = [x.startswith("^") for x in sh(["git", "-C", repo, "blame", "-s", path]).stdout.splitlines()]
        elif line.startswith("@@"):
            n = int(line.split()[1].split(",")[0][1:]) - 1
        elif line.startswith("-"):
            if blame[n]:
                orig += 1
            else:
                own += 1
            n += 1
        elif line.startswith(" "):
            n += 1
    return orig, own


def tests(repo):
    """Stable tests pass? (the copy's own code, not /repo's)"""
    work = tempfile.mkdtemp(dir="/tmp")
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=repo)
        r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "--continue-on-collection-errors", "--basetemp=" + work + "/t",
                "-o", "junit_family=xunit2", "--junitxml=" + work + "/j.xml"], cwd=repo, env=env)
        sh(["python3", "/opt/vp/results.py", work + "/o.json", "junit:" + work + "/j.xml"])
        res = json.load(open(work + "/o.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        flat = json.dumps(res)
        ok = [s for s in stable if s in (res.get("passed") or [])] if isinstance(res, dict) and "passed" in res else None
        return (len(ok) == len(stable)) if ok is not None else flat[:300]
    finally:
        shutil.rmtree(work)


def demo(repo, d):
    lay = tempfile.mkdtemp(dir="/tmp")
    try:
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(d, f), lay)
        r = sh(["bash", os.path.join(lay, "demo.sh")], cwd=repo, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-600:]
    finally:
        shutil.rmtree(lay)


def validate(ids):
    top = tempfile.mkdtemp(dir="/tmp")
    repo = os.path.join(top, "repo")
    bad = 0
    try:
        sh(["cp", "-a", "/repo", repo])
        for i in ids:
            d = os.path.join(SEEDED, i)
            patch = os.path.join(d, "patch.diff")
            msg = []
            json.load(open(os.path.join(d, "meta.json")))
            a = demo(repo, d)
            if a[0]:
                msg.append("demo fails on the clean tree: " + a[1])
            orig, own = original_lines(repo, patch)
            if not orig or own:
                msg.append("changes %d original and %d own lines" % (orig, own))
            r = sh(["git", "-C", repo, "apply", patch])
            if r.returncode:
                msg.append("does not apply: " + r.stderr)
            else:
                t = tests(repo)
                if t is not True:
                    msg.append("tests: %s" % (t,))
                b = demo(repo, d)
                if b[0] == 0:
                    msg.append("demo passes with the patch")
                sh(["git", "-C", repo, "checkout", "--", "."])
                last = b[1].strip().splitlines()[-1:] if b[1].strip() else ""
            print(i, "ok" if not msg else msg, last if not msg else "", flush=True)
            bad += bool(msg)
    finally:
        shutil.rmtree(top)
    return bad


def run(ids, tier="quick"):
    assert not sh(["git", "-C", "/repo", "status", "--porcelain", "-uno"]).stdout
    for i in ids:
        d = os.path.join(SEEDED, i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        try:
            r = sh(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
            assert r.returncode == 0, r.stderr
            r = sh([os.path.join(HERE, "check"), meta["property"], tier], cwd=HERE, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."])
        hit = "VIOLATION property=" + meta["property"] in r.stdout
        print(i, meta["property"], "CAUGHT" if hit and r.returncode == 1 else "missed rc=%d %s" % (r.returncode, r.stdout[-300:] if r.returncode not in (0, 1) else ""), flush=True)


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    if sys.argv[1] == "validate":
        sys.exit(1 if validate(ids) else 0)
    run(ids)

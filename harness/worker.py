"""Runs cases of one property through the real code (PYTHONPATH has /repo first)."""
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
LIMIT = int(os.environ.get("VERIF_CASE_LIMIT", "60"))


class NoAnswer(BaseException):
    pass


def on_alarm(signum, frame):
    raise NoAnswer()


def main():
    prop, inp, out = sys.argv[1:4]
    mod = importlib.import_module("harness.props." + prop.lower())
    signal.signal(signal.SIGALRM, on_alarm)
    stuck = 0
    deadline = time.time() + float(os.environ.get("VERIF_WORKER_LIMIT", "500"))
    with open(inp) as f, open(out, "a") as g:
        for line in f:
            case = json.loads(line)
            g.write(json.dumps({"begin": case["i"]}) + "\n")
            g.flush()
            if stuck >= 2 or time.time() > deadline:
                break
            res = {"i": case["i"]}
            try:
                signal.alarm(case["case"].get("limit", LIMIT) if isinstance(case["case"], dict) else LIMIT)
                try:
                    res["rec"] = mod.observe(case["case"])
                finally:
                    signal.alarm(0)
            except NoAnswer:
                res.update(fail="no-answer", msg="no answer within %d s" % LIMIT)
                stuck += 1
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [t for t in tb if "/pipit/" in t.filename]
                res.update(fail="raised", msg="%s: %s" % (type(e).__name__, str(e)[:300]),
                           where="%s:%s" % (os.path.basename(where[-1].filename), where[-1].name) if where else "harness",
                           tb="".join(traceback.format_exception(e))[-3000:])
            g.write(json.dumps(res) + "\n")
            g.flush()
        g.write(json.dumps({"end": True}) + "\n")


if __name__ == "__main__":
    main()

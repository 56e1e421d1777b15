"""Runs one harness entry symbolically; prints a JSON result."""
import json
import os
import resource
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def watch(job, res, z3, slack=40):
    """z3 does not honour its time limit inside some polynomial operations: give the run up when that happens"""
    started = [None]
    orig = z3.Solver.check

    def check(self, *a):
        started[0] = time.time()
        try:
            return orig(self, *a)
        finally:
            started[0] = None
    z3.Solver.check = check

    def loop():
        while True:
            time.sleep(1)
            t = started[0]
            if t is not None and time.time() - t > 20 + slack:
                res["error"] = "engine: the solver ignored its time limit"
                os.write(1, ("\n@@RESULT " + json.dumps(res) + "\n").encode())
                os._exit(0)
    threading.Thread(target=loop, daemon=True).start()


def main():
    job = json.loads(sys.stdin.read())
    resource.setrlimit(resource.RLIMIT_AS, (job.get("mem", 12) << 30, job.get("mem", 12) << 30))
    t0 = time.time()
    res = {"job": job, "error": None, "failures": [], "inconclusive": []}
    import llparse
    import rf
    import sym
    import z3
    M = None
    watch(job, res, z3)
    try:
        with open(job["ll"]) as f:
            mod = llparse.parse_module(f.read())
        opts = {"budget": job["budget"]}
        opts.update(job.get("opts") or {})
        M = sym.Machine(mod, params=job["params"], opts=opts)
        M.run(job["entry"])
        if M.vacuity is None and not M.failures and not M.inconclusive:
            # no path of the harness ran to completion
            allowed = any(k not in ("infeasible", "assume") for k in M.ended)
            if not allowed:
                res["error"] = "vacuous: no execution satisfies the assumptions"
    except sym.EngineError as e:
        res["error"] = "engine: %s" % e
    except rf.TooLarge as e:
        res["error"] = "engine: %s" % e
    except Exception as e:
        res["error"] = "internal: %s\n%s" % (e, traceback.format_exc()[-2500:])
    if M is not None:
        res["stats"] = M.stats
        res["biggest"] = rf.BIGGEST
        res["ended"] = M.ended
        res["vacuity"] = M.vacuity
        res["labels"] = M.check_labels
        res["covers"] = sorted(M.covers)
        res["assumed_nonzero"] = len(M.assumed_nonzero)
        res["executed"] = sorted(n for n in M.executed)
        for f in M.failures:
            f = dict(f)
            f["envs"] = [{k: (v if isinstance(v, int) else [str(v.numerator), str(v.denominator)]) for k, v in e.items()}
                         for e in f["envs"]]
            res["failures"].append(f)
        res["inconclusive"] = M.inconclusive
    res["wall"] = time.time() - t0
    sys.stdout.write("\n@@RESULT " + json.dumps(res) + "\n")
    sys.stdout.flush()


if __name__ == "__main__":
    main()

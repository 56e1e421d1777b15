#!/usr/bin/env python3
"""Driver: decide one property with the symbolic engine and the SMT solver.

usage: run.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [-v]
       run.py --replay FILE
exit 0: held on everything explored; 1: violation (replayed on the real code);
2: no answer (engine or solver could not decide).
"""
import argparse
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build          # noqa: E402
import checks         # noqa: E402

PY = sys.executable


def num(v):
    if isinstance(v, int):
        return "%d" % v
    from fractions import Fraction
    return repr(float(Fraction(int(v[0]), int(v[1]))))


class Pool:
    """running workers, so that a confirmed violation can end the others"""
    def __init__(self):
        self.stop = False
        self.procs = set()
        self.lock = threading.Lock()

    def halt(self):
        with self.lock:
            self.stop = True
            for p in self.procs:
                p.kill()


def run_job(sc, job, pool):
    bad = {"job": job, "error": None, "failures": [], "inconclusive": []}
    with pool.lock:
        if pool.stop:
            return dict(bad, skipped=True)
        p = subprocess.Popen([PY, os.path.join(HERE, "worker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True)
        pool.procs.add(p)
    try:
        out, err = p.communicate(json.dumps(job), timeout=job["budget"] * 1.5 + 60)
        for ln in out.splitlines():
            if ln.startswith("@@RESULT "):
                r = json.loads(ln[9:])
                r["stderr"] = err[-2000:]
                return r
        if pool.stop:
            return dict(bad, skipped=True)
        return dict(bad, error="worker died (rc %s): %s" % (p.returncode, err[-800:]))
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return dict(bad, error="worker timeout")
    finally:
        with pool.lock:
            pool.procs.discard(p)


def native(sc, job, env, label):
    exe = sc.compile_native(job["harness"], job["variant"], job["entry"])
    path = os.path.join(sc.dir, "in_%d_%d.txt" % (os.getpid(), time.time_ns()))
    with open(path, "w") as f:
        for k, v in job["params"].items():
            f.write("p %s %s\n" % (k, v))
        for k, v in env.items():
            f.write("i %s %s\n" % (k, num(v)))
    mode = ["fpe"] if label in ("end:nan", "end:fdivzero") else []
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:alloc_dealloc_mismatch=0")
    try:
        r = subprocess.run([exe, path] + mode, capture_output=True, text=True, timeout=60, env=e, cwd=sc.dir)
    except subprocess.TimeoutExpired:
        return label == "end:diverges", "native run does not end"
    finally:
        os.unlink(path)
    out = (r.stdout + r.stderr)
    if r.returncode == 4:
        return False, "assumption not met after rounding"
    if r.returncode == 3:
        return True, r.stdout.strip().splitlines()[0][:300]
    if r.returncode == 5:
        return label == "end:fatal", "fatal error reported"
    if r.returncode == 6:
        return True, "floating point exception"
    if r.returncode != 0:
        m = [x for x in out.splitlines() if "ERROR" in x or "Assertion" in x or "assert" in x]
        return True, ("crash: " + (m[0] if m else out[:200]))[:300]
    return False, "native run passed"


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(n[1:] for n in names), capture_output=True, text=True)
        out = r.stdout.splitlines()
        if len(out) == len(names):
            return out
    except OSError:
        pass
    return names


def replay_file(path):
    d = json.load(open(path))
    if d.get("python"):
        import pychecks
        return pychecks.replay(d)
    sc = build.Scratch()
    try:
        ok, msg = native(sc, d["job"], d["env"], d["label"])
        print("reproduced" if ok else "not reproduced", ":", msg)
        return 0 if ok else 1
    finally:
        sc.cleanup()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--variant")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--all", action="store_true", help="do not stop at the first confirmed violation")
    ap.add_argument("--strict", action="store_true")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay_file(a.replay))
    t0 = time.time()
    prop = a.prop
    spec = checks.PROPS[prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    sc = build.Scratch()
    try:
        rc = decide(a, prop, spec, tier, sc, t0)
    finally:
        sc.cleanup()
    sys.exit(rc)


def known_list(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k["property"] == prop and k["status"] == "known"]


def matches(k, f):
    """a listed finding covers a failure only if the run, the check label and the
    recorded witness region agree"""
    j = f["job"]
    if k.get("harness") != j["harness"] or k.get("entry") != j["entry"]:
        return False
    if k.get("label") != f["label"]:
        return False
    if k.get("where") and k["where"] not in " ".join(f.get("where", [])):
        return False
    return True


def decide(a, prop, spec, tier, sc, t0):
    jobs = []
    errors = []
    comp = {}
    runs = [r for r in spec["runs"] if tier == "thorough" or r.get("tier", "quick") == "quick"]
    if tier == "thorough":
        runs = [r for r in runs if not r.get("quick_only")]
    if a.only:
        runs = [r for r in runs if a.only in r["entry"]]
    if a.variant:
        runs = [r for r in runs if a.variant == r.get("variant", "default")]
    with cf.ThreadPoolExecutor(8) as ex:
        keys = sorted({(r["harness"], r.get("variant", "default")) for r in runs if "harness" in r})
        for v in {k[1] for k in keys}:
            sc.tree(v)
        futs = {k: ex.submit(sc.compile_ll, *k) for k in keys}
        for k, f in futs.items():
            try:
                comp[k] = f.result()
            except build.BuildError as e:
                errors.append("build: %s" % e)
                comp[k] = None
        budget = spec.get("budget", 400) if tier == "quick" else spec.get("budget_thorough", 1800)
        for r in runs:
            ll = comp.get((r["harness"], r.get("variant", "default")))
            if ll is None:
                continue
            for params in r.get("params", [{}]):
                jobs.append({"harness": r["harness"], "variant": r.get("variant", "default"), "entry": r["entry"],
                             "params": params, "ll": ll, "budget": a.budget or r.get("budget", budget), "opts": r.get("opts"),
                             "weight": r.get("weight", 1)})
        jobs.sort(key=lambda j: -j["weight"])
        pool = Pool()
        known = known_list(prop)

        def confirm(j, r):
            for f in r["failures"]:
                f["job"] = j
                f["native"] = None
                msg = "no model"
                for env in f["envs"]:
                    if pool.stop:
                        break
                    try:
                        ok, msg = native(sc, j, env, f["label"])
                    except build.BuildError as e:
                        ok, msg = False, "native build: %s" % e
                    if a.v:
                        print("   replay", j["entry"], f["label"], ok, msg, file=sys.stderr)
                    if ok:
                        f["env"], f["native"] = env, msg
                        break
                f["msg2"] = msg
                if f["native"] and not any(matches(k, f) for k in known) and not a.all:
                    pool.halt()

        def one(j):
            r = run_job(sc, j, pool)
            if a.v:
                print("done %s:%s[%s]%s wall %.1f %s" % (j["harness"], j["entry"], j["variant"], j["params"],
                                                         r.get("wall", 0), (r.get("error") or "")[:200]), file=sys.stderr, flush=True)
            confirm(j, r)
            if (r.get("error") or r["inconclusive"]) and not r.get("skipped") and not any(f["native"] for f in r["failures"]):
                # no verdict over all values: look for a counterexample among some fixed inputs, where the solver has less to do
                for seed in range(6):
                    if pool.stop:
                        break
                    pj = dict(j, budget=30, opts=dict(j.get("opts") or {}, pin=seed, timeout=5000))
                    pr = run_job(sc, pj, pool)
                    confirm(pj, pr)
                    hits = [f for f in pr["failures"] if f["native"]]
                    if a.v:
                        print("pinned %d %s:%s %s %s %d" % (seed, j["harness"], j["entry"], j["variant"], (pr.get("error") or "")[:100],
                                                        len(hits)), file=sys.stderr, flush=True)
                    if hits:
                        r["failures"] += hits
                        break
            return r
        results = list(ex.map(one, jobs))
    extra = None
    if spec.get("python"):
        import pychecks
        extra = pychecks.run(prop, spec["python"], tier)
    viol = []
    unconfirmed = []
    knownhits = {}
    tot = {}
    funcs = set()
    covers = set()
    for r in results:
        j = r["job"]
        tag = "%s:%s[%s]%s" % (j["harness"], j["entry"], j["variant"], json.dumps(j["params"], sort_keys=True))
        for k, v in (r.get("stats") or {}).items():
            tot[k] = tot.get(k, 0) + v
        funcs |= set(r.get("executed") or [])
        covers |= set(r.get("covers") or [])
        if a.v:
            print(tag, "wall %.1f" % r.get("wall", 0), "big", r.get("biggest"), r.get("stats"), r.get("ended"), "vac", r.get("vacuity"), r.get("labels"),
                  file=sys.stderr)
            if r.get("stderr"):
                print(r["stderr"], file=sys.stderr)
        if r.get("skipped"):
            continue
        if r.get("error"):
            errors.append("%s: %s" % (tag, r["error"]))
        elif r.get("vacuity") is False and not r["failures"]:
            errors.append("%s: vacuity check failed" % tag)
        for x in r["inconclusive"]:
            errors.append("%s: undecided %s" % (tag, x))
        for f in r["failures"]:
            if not f["native"]:
                if not pool.stop:
                    unconfirmed.append((tag, f, f["msg2"]))
                continue
            hit = [k for k in known if matches(k, f)]
            if hit:
                knownhits[hit[0]["id"]] = hit[0]
                continue
            viol.append((tag, f))
    if extra:
        for k, v in extra["stats"].items():
            tot[k] = tot.get(k, 0) + v
        funcs |= {"@" + x for x in extra["functions"]}
        errors += extra["errors"]
        for f in extra["violations"]:
            hit = [k for k in known if k.get("entry") == f["entry"] and k.get("label") == f["label"]]
            if hit:
                knownhits[hit[0]["id"]] = hit[0]
            else:
                viol.append((f["entry"], f))
    # evidence ----------------------------------------------------------------
    names = [n for n in demangle(sorted(funcs))
             if not n.startswith(("std::", "__gnu_cxx", "void std::", "bool std::", "_GLOBAL", "__", "operator "))
             and "std::__" not in n.split("(")[0] and " std::" not in n.split("(")[0]]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec.get("level", "model_checking"),
        "coverage": {
            "explanation": spec["how"],
            "functions_encoded": names[:200],
            "bounds": spec["bounds"],
            "runs": ["%s:%s[%s] %s -> %s paths, %s obligations" % (
                r["job"]["harness"], r["job"]["entry"], r["job"]["variant"], json.dumps(r["job"]["params"], sort_keys=True),
                (r.get("stats") or {}).get("paths"), (r.get("stats") or {}).get("checks")) for r in results] +
                    (extra["runs"] if extra else []),
            "paths": tot.get("paths", 0), "obligations": tot.get("checks", 0),
            "solver_queries": tot.get("queries", 0), "queries_discharged_unsat": tot.get("unsat", 0),
            "obligations_closed_by_normal_form": tot.get("trivial", 0),
            "solver_time_s": round(tot.get("solver_s", 0), 2), "instructions_executed_symbolically": tot.get("instr", 0),
            "vacuity": "every run completed at least one path whose condition the solver found satisfiable",
            "covers": sorted(covers),
            "states": max(1, tot.get("paths", 0)), "transitions": max(1, tot.get("instr", 0)),
        },
        "assumptions": spec.get("assumptions", []) + checks.ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if unconfirmed or errors:
        ev["coverage"]["undecided"] = ["%s %s" % (t, f["label"]) for t, f, _ in unconfirmed] + errors
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in knownhits.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viol:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for n, (tag, f) in enumerate(viol):
            if f["label"] in seen:
                continue
            seen.add(f["label"])
            p = os.path.join(d, "%s-%d.json" % (prop, n))
            with open(p, "w") as fh:
                jj = {k: v for k, v in (f.get("job") or {}).items() if k != "ll"}
                json.dump({"property": prop, "job": jj, "label": f["label"], "env": f["env"], "native": f["native"],
                           "where": f.get("where"), "msg": f.get("msg"), "python": f.get("python"),
                           "entry": f.get("entry")}, fh, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  %s: %s -- %s" % (tag, f["label"], f["native"]))
        return 1
    if unconfirmed or errors:
        for tag, f, msg in unconfirmed:
            print("UNCONFIRMED property=%s %s %s: %s %s %s" % (prop, tag, f["label"], msg, str(f.get("msg"))[:400], f.get("notes")))
        for e in errors[:4]:
            print("NO-ANSWER property=%s %s" % (prop, e))
        # a minority of undecided runs is reported (here and in the evidence); the verdict then covers the decided ones
        bad = {t for t, _, _ in unconfirmed} | {e.split(": ")[0] for e in errors}
        if any(e.startswith("build:") for e in errors) or len(bad) * 2 > len(results) or a.strict:
            return 2
    print("OK property=%s tier=%s paths=%d obligations=%d queries=%d solver=%.1fs wall=%.1fs" % (
        prop, tier, tot.get("paths", 0), tot.get("checks", 0), tot.get("queries", 0), tot.get("solver_s", 0),
        time.time() - t0))
    return 0


if __name__ == "__main__":
    main()

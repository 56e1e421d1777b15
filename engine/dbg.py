"""developer aid: run one entry in-process with slow queries printed"""
import sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build, llparse, sym
h, v, e = sys.argv[1:4]
params = json.loads(sys.argv[4]) if len(sys.argv) > 4 else {}
budget = float(sys.argv[5]) if len(sys.argv) > 5 else 60
sc = build.Scratch()
try:
    ll = sc.compile_ll(h, v)
    if os.environ.get("KEEP"):
        import shutil; shutil.copy(ll, os.environ["KEEP"])
    mod = llparse.parse_module(open(ll).read())
finally:
    sc.cleanup()
M = sym.Machine(mod, params=params, opts=dict({"budget": budget, "trace": True}, **(json.loads(sys.argv[6]) if len(sys.argv) > 6 else {})))
t0 = time.time()
try:
    M.run(e)
except Exception as ex:
    import traceback; traceback.print_exc()
print(M.stats, M.ended, M.vacuity, M.check_labels, "wall %.1f" % (time.time() - t0))
for f in M.failures: print("FAIL", f["label"], f.get("msg"), f.get("where"), f.get("notes"), str({k: (float(v) if not isinstance(v, int) else v) for k, v in f["envs"][0].items()})[:600] if f["envs"] else None)
print("INC", M.inconclusive[:3])

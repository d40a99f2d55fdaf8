"""Writes mc/checks/calibration.json: errors of every C29 integration on the current tree (run by hand after reviewing them)."""
import json, os, sys, warnings
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["MC_CALIBRATE"] = "1"
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core
import multiprocessing, importlib

def one(i):
    mod = importlib.import_module("mc.checks.c29")
    key, fn = [c for c in mod.cases("thorough") if not c[0].startswith("origin")][i]
    mod._MEASURE.clear()
    import time; t = time.time()
    try:
        fn()
    except Exception as e:
        print(key, repr(e)[:300])
    if time.time() - t > 5: print(key, "%.1fs" % (time.time() - t))
    return dict(mod._MEASURE)

if __name__ == "__main__":
    warnings.simplefilter("ignore")
    core.load_code()
    core.quiet_logs()
    mod = importlib.import_module("mc.checks.c29")
    n = len([c for c in mod.cases("thorough") if not c[0].startswith("origin")])
    out = {}
    with multiprocessing.get_context("fork").Pool(8) as p:
        for d in p.imap_unordered(one, range(n), chunksize=1):
            out.update(d)
    with open(mod.CAL, "w") as f:
        json.dump({k: {a: float("%.3g" % b) for a, b in v.items()} for k, v in sorted(out.items())}, f, indent=0)

"""Development helper: run cases [a,b) in this process's children and list verdicts."""
import argparse, os, sys, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("a", type=int); ap.add_argument("b", type=int)
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--log", action="store_true")
ap.add_argument("--tier", default="quick")
a = ap.parse_args()
os.environ.update(__import__("dst.check", fromlist=["x"]).WORKER_ENV)
from dst import check, core, prep
base = "/dev/shm/trappy-dst-dev.%d" % os.getpid()
os.makedirs(base)
try:
    prep.prepare(base)
    mod = check.load(a.prop)
    if hasattr(mod, "setup"):
        mod.setup()
    for i in range(a.a, a.b):
        case = core.gen_case(mod, a.seed, i, a.tier)
        r = core.run_case(mod, case, base, want_log=a.log)
        if r["verdict"] != "ok" or a.log:
            N = globals().get("N", 0) + 1
            if N <= int(os.environ.get("LIM", "6")): print(i, r["verdict"], r.get("cls"), r.get("msg", "")[-500:], r["stats"])
        if a.log:
            print("\n".join(r["log"]))
finally:
    core._rmtree(base)

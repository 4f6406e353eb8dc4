#!/opt/venv/bin/python
"""dst/check.py PROP [--replay FILE] [--cases N] [--seed N] [--tier T]

Runs the seeded simulation search that decides one property.
exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: error.
"""
import argparse
import collections
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
SOFT_WALL_S = {"quick": 600.0, "thorough": 4 * 3600.0}

WORKER_ENV = {
    "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONUTF8": "1", "LC_ALL": "C.UTF-8", "TZ": "UTC", "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONWARNINGS": "ignore",
    "NUMEXPR_MAX_THREADS": "1",
}


def scratch_base():
    for d in ("/dev/shm", os.environ.get("TMPDIR", "/tmp")):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return "/tmp"


def load(prop):
    return importlib.import_module("dst.props." + prop.lower())


# ------------------------------------------------------------------ worker
def worker_main(a):
    out = os.fdopen(os.dup(1), "w")
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 1)
    from dst import core, prep
    base = os.path.join(scratch_base(), "trappy-dst.%d" % os.getpid())
    os.makedirs(base)
    try:
        prep.prepare(base)
        mod = load(a.prop)
        if hasattr(mod, "setup"):
            mod.setup()
        import gc
        gc.collect()
        gc.freeze()

        def send(obj):
            out.write(json.dumps(obj) + "\n")
            out.flush()

        if a.worker == "range":
            t_end = time.monotonic() + a.soft_wall
            i, bad = a.start, 0
            while i < a.cases:
                if time.monotonic() > t_end:
                    send({"soft_stop": i})
                    break
                case = core.gen_case(mod, a.seed, i, a.tier)
                res = core.run_case(mod, case, base)
                res["i"] = i
                if core.is_violation(res) or res["verdict"] == "harness_error":
                    res["case"] = case
                elif i < 3:
                    res["sample"] = case
                send(res)
                if core.is_violation(res):
                    bad += 4 if res["verdict"] == "hang" else 1
                    if bad >= 4 and a.tier == "quick":
                        send({"soft_stop": i})
                        break
                i += a.stride
        elif a.worker == "minimise":
            with open(a.replay) as f:
                rep = json.load(f)
            case, runs = core.minimise(mod, rep["case"], rep["cls"], base,
                                       budget_s=a.min_budget)
            send({"case": case, "runs": runs})
        elif a.worker == "one":
            with open(a.replay) as f:
                rep = json.load(f)
            send(core.run_case(mod, rep["case"], base, want_log=True))
    finally:
        core._rmtree(base)
        out.flush()


def spawn(a, mode, extra, err):
    env = dict(os.environ)
    env.update(WORKER_ENV)
    if a.hashseed:
        env["PYTHONHASHSEED"] = a.hashseed
    cmd = [sys.executable, os.path.abspath(__file__), a.prop, "--worker", mode,
           "--seed", str(a.seed), "--tier", a.tier] + extra
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=err, env=env, cwd=VERIF,
                            text=True)


def call_one(a, mode, replay, extra=()):
    with open(os.path.join(VERIF, "replays", ".err-%s" % a.prop), "w+") as err:
        p = spawn(a, mode, ["--replay", replay] + list(extra), err)
        out, _ = p.communicate()
        lines = [l for l in out.splitlines() if l.strip()]
        if p.returncode != 0 or not lines:
            err.seek(0)
            raise RuntimeError("worker failed (%s): %s" % (p.returncode, err.read()[-3000:]))
        return json.loads(lines[-1])


# ------------------------------------------------------------------ master
def evidence(a, mod, agg, wall, violations):
    name = os.path.join(VERIF, "evidence", a.prop + ".json")
    os.makedirs(os.path.dirname(name), exist_ok=True)
    n = agg["runs"]
    cov = {
        "evaluations": n,
        "distinct_nontrivial": len(agg["digests"]),
        "rule": mod.RULE,
        "samples": agg["samples"][:3],
        "seeds": "one per run: Random('%d/%s/i'), i in 0..%d" % (a.seed, a.prop, max(0, n - 1)),
        "runs_per_hour": round(n / wall * 3600) if wall > 0 else 0,
        "workers": a.workers,
        "simulated_seconds_covered": round(agg["sim_ns"] / 1e9, 6),
        "faults_injected": dict(sorted(agg["faults"].items())),
        "fault_total": sum(agg["faults"].values()),
        "distinct_states": len(agg["cover"]),
        "distinct_states_measure": getattr(mod, "MEASURE", "distinct coverage keys reported by runs"),
        "distinct_interleavings": len(agg["all_digests"]),
        "distinct_interleavings_measure": "distinct event logs (operations, switches, faults) over all runs",
        "probes": dict(sorted(agg["stats"].items())),
        "components_real": mod.REAL,
        "components_stubbed": mod.STUB,
        "skipped": agg["skipped"],
        "soft_wall_stop": agg["soft_stop"],
    }
    doc = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": mod.LEVEL,
           "coverage": cov, "assumptions": list(getattr(mod, "ASSUME", [])),
           "wall_s": round(wall, 2), "violations": violations}
    tmp = name + ".tmp"
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    os.replace(tmp, name)


def master(a):
    t0 = time.monotonic()
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    mod = load(a.prop)
    cases = a.cases or (mod.QUICK if a.tier == "quick" else mod.THOROUGH)
    print("check %s tier=%s seed=%d cases=%d workers=%d" %
          (a.prop, a.tier, a.seed, cases, a.workers), flush=True)
    procs, errs = [], []
    for w in range(a.workers):
        err = open(os.path.join(VERIF, "replays", ".err-%s-%d" % (a.prop, w)), "w+")
        errs.append(err)
        procs.append(spawn(a, "range", [
            "--start", str(w), "--stride", str(a.workers), "--cases", str(cases),
            "--soft-wall", str(SOFT_WALL_S[a.tier])], err))
    agg = {"runs": 0, "digests": set(), "all_digests": set(), "samples": [], "sim_ns": 0,
           "faults": collections.Counter(), "stats": collections.Counter(),
           "cover": set(), "skipped": 0, "soft_stop": False}
    bad, harness, log = [], [], []
    import threading
    lock = threading.Lock()

    def reader(p):
        for line in p.stdout:
            r = json.loads(line)
            with lock:
                if "soft_stop" in r:
                    agg["soft_stop"] = True
                    continue
                agg["runs"] += 1
                agg["all_digests"].add(r["digest"])
                if a.dump:
                    log.append((r["i"], r["digest"], r["verdict"]))
                if r["nontrivial"] and r["verdict"] == "ok":
                    agg["digests"].add(r["digest"])
                agg["sim_ns"] += r["sim_ns"]
                agg["faults"].update(r["faults"])
                agg["stats"].update(r["stats"])
                agg["cover"].update(r["cover"])
                if "sample" in r:
                    agg["samples"].append(r["sample"])
                if r["verdict"] == "skip":
                    agg["skipped"] += 1
                elif r["verdict"] == "harness_error":
                    harness.append(r)
                elif r["verdict"] != "ok":
                    bad.append(r)

    threads = [threading.Thread(target=reader, args=(p,)) for p in procs]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    failed = []
    for p, err in zip(procs, errs):
        p.wait()
        if p.returncode != 0:
            err.seek(0)
            failed.append(err.read()[-3000:])
        err.close()
        os.unlink(err.name)
    if a.dump:
        with open(a.dump, "w") as f:
            for row in sorted(log):
                f.write("%d %s %s\n" % row)
    status = 0
    vcount = 0
    if bad:
        classes = collections.Counter(r["cls"] for r in bad)
        print("violating runs: %d of %d %s" % (len(bad), agg["runs"], dict(classes)))
        bad.sort(key=lambda r: r["i"])
        seen = set()
        for r in bad:
            if r["cls"] in seen or len(seen) >= 3:
                continue
            seen.add(r["cls"])
            path = report(a, mod, r)
            if path:
                vcount += 1
                print("VIOLATION property=%s replay=%s" % (a.prop, path), flush=True)
                status = 1
                break
        if not vcount:
            print("ERROR: violations did not reproduce from their replay files", flush=True)
            status = 2
    if status == 0 and (failed or harness):
        for f in failed:
            print("ERROR worker failed:\n" + f)
        for r in harness[:3]:
            print("ERROR in the harness, case %d:\n%s" % (r["i"], r["msg"]))
        status = 2
    if status == 0 and agg["runs"] == 0:
        print("ERROR nothing was run")
        status = 2
    print_known(a)
    wall = time.monotonic() - t0
    evidence(a, mod, agg, wall, vcount)
    print("%s: %d runs, %d distinct non-trivial, %d faults, %.1f s -> exit %d" % (
        a.prop, agg["runs"], len(agg["digests"]), sum(agg["faults"].values()), wall, status))
    return status


def print_known(a):
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("finding: property=%s " % a.prop):
                    print("KNOWN-FINDING: " + line[len("finding: "):].strip())
    except OSError:
        pass


def report(a, mod, r):
    """Minimise, write the replay file, confirm it in a fresh process."""
    d = os.path.join(VERIF, "replays")
    name = os.path.join(d, "%s-seed%d-case%d.json" % (a.prop, a.seed, r["i"]))
    rep = {"property": a.prop, "seed": a.seed, "index": r["i"], "cls": r["cls"],
           "msg": r["msg"], "case": r["case"], "minimised": False}

    def put():
        with open(name, "w") as f:
            json.dump(rep, f, indent=1, sort_keys=True)
    put()
    original = rep["case"]
    hang = r["verdict"] == "hang"
    if not hang and not a.no_minimise:
        try:
            m = call_one(a, "minimise", name, ["--min-budget", "60" if a.tier == "quick" else "300"])
            rep["case"], rep["minimise_runs"] = m["case"], m["runs"]
            rep["minimised"] = True
        except RuntimeError as e:
            print("minimisation failed: %s" % e)
        put()
    for attempt in (0, 1):
        got = call_one(a, "one", name)
        if got["verdict"] in ("violation", "hang", "died") and got.get("cls") == r["cls"]:
            rep["msg"] = got["msg"]
            rep["log"] = got.get("log", [])[-400:]
            rep["digest"] = got["digest"]
            put()
            print("%s: %s" % (rep["cls"], rep["msg"][:1500]))
            return name
        rep["case"], rep["minimised"] = original, False
        put()
    return None


def replay(a):
    rep = json.load(open(a.replay))
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    got = call_one(a, "one", os.path.abspath(a.replay))
    for l in got.get("log", [])[-60:]:
        print("  " + l)
    print("verdict: %s %s\n%s" % (got["verdict"], got.get("cls", ""), got.get("msg", "")))
    if "digest" in rep:
        print("event log %s the recorded one" %
              ("equals" if rep["digest"] == got["digest"] else "DIFFERS from"))
    if got["verdict"] in ("violation", "hang", "died"):
        print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1
    return 0 if got["verdict"] in ("ok", "skip") else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--worker")
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--soft-wall", type=float, default=600.0)
    ap.add_argument("--min-budget", type=float, default=60.0)
    ap.add_argument("--dump")
    ap.add_argument("--hashseed")
    ap.add_argument("--no-minimise", action="store_true")
    a = ap.parse_args()
    if a.tier not in SOFT_WALL_S:
        a.tier = "quick"
    if a.worker:
        return worker_main(a)
    if a.replay:
        return replay(a)
    return master(a)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code or 0)

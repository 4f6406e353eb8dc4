"""C03: the cache is transparent over any history of loads."""
import os

from dst import hist, ops, seams, world as W

ID = "C03"
LEVEL = "exploration"
QUICK, THOROUGH = 640, 12000
SHRINK = ("items", "steps", "events", "head", "tasks")
SIMPLIFY = {"dat": [False], "normalize_time": [False], "scope": ["custom"]}
RULE = ("A case is one or two traces (text, systrace or .dat through a simulated trace-cmd) and a "
        "history of 2-7 steps: loads with random scope/events/window/normalisation, parsers "
        "registered, re-registered with another word or unregistered, cache files removed, the "
        "caller modifying the tables it got, caching switched off and on. Every load is compared "
        "cell by cell (values, types, columns, times, metadata) with a cache-less load of the same "
        "bytes. Non-trivial: at least two loads compared, one of them with a cache on disk.")
MEASURE = "(tracer, .dat, step kinds, cache state met, cells' types) combinations"
REAL = ["trappy.FTrace/SysTrace, cache code, parser registry", "pandas", "real files in a scratch tree"]
STUB = ["trace-cmd (simulated program)", "temp names, clock, pids"]
ASSUME = ["no fault in this property's runs; faults are C04-C08"]


def gen(rng, i, tier):
    ntr = rng.choice([1, 1, 2])
    traces = []
    for t in range(ntr):
        fmt = rng.choice(["us", "us", "t9", "ns", "sys", "sys"])
        w = W.gen_world(rng, n=rng.choice([1, 3, 6, 12, 25]), fmt=fmt,
                        users=rng.sample(W.USER_EVENTS, rng.randrange(1, 4)))
        traces.append({"w": w, "dat": fmt != "sys" and rng.random() < .3,
                       "name": ["trace", "other.v2"][t]})
    steps = []
    regs = rng.random() < .5
    bias = rng.random()
    base = [hist.gen_spec(rng, t["w"], scopes=("custom",) * 5 + ("sched", "thermal", "all"))
            for t in traces]
    for _ in range(rng.randrange(2, 8)):
        r = rng.random()
        t = rng.randrange(ntr)
        if regs and r < .25:
            steps.append({"do": "reg", "op": hist.gen_reg(rng)})
        elif r < .32:
            steps.append({"do": "drop", "trace": t, "pick": rng.randrange(1000)})
        elif r < .36:
            steps.append({"do": "toggle"})
        else:
            spec = base[t] if rng.random() < bias else hist.gen_spec(rng, traces[t]["w"])
            spec = dict(spec)
            if rng.random() < .1:
                spec["tracer"] = "SysTrace"
            steps.append({"do": "load", "trace": t, "spec": spec,
                          "spoil": rng.random() < .2, "dir": rng.random() < .1})
    steps.append({"do": "load", "trace": 0, "spec": base[0], "spoil": False, "dir": False})
    return {"traces": traces, "steps": steps}


def spoil(trace):
    """The caller does as it likes with the tables it was given."""
    for n in sorted(trace.class_definitions):
        df = getattr(trace, n).data_frame
        if len(df):
            df.iloc[0, 0] = "spoilt"
            df["extra"] = 1


def run(case, ctx):
    m = hist.Machine(ctx)
    paths = [m.put(t["name"], t["w"], t["dat"]) for t in case["traces"]]
    loads = hits = 0
    off = False
    kinds = []
    for n, s in enumerate(case["steps"]):
        kinds.append(s["do"])
        ctx.log("step", n, s["do"])
        if s["do"] == "reg":
            m.apply_reg(s["op"])
            continue
        if s["do"] == "toggle":
            off = not off
            for c in m.classes:
                c.disable_cache = off
            continue
        if s["trace"] >= len(paths):
            continue
        path = paths[s["trace"]]
        cdir = "%s/.%s.cache" % (m.root, os.path.basename(path))
        if s["do"] == "drop":
            try:
                names = sorted(seams._real["listdir"](cdir))
            except OSError:
                continue
            if names:
                seams._real["unlink"](cdir + "/" + names[s["pick"] % len(names)])
                ctx.fault("cache-file-removed")
            continue
        spec = s["spec"]
        had = os.path.isdir(cdir) and not off
        p = path
        if s["dir"] and os.path.basename(path).startswith("trace.") and spec["tracer"] == "FTrace":
            p = m.root          # FTrace(directory)
        got = m.attempt(spec, p)
        ref = m.reference(spec, path)
        m.same(got, ref, "load %d of %s (%s)" % (n, os.path.basename(path),
                                                 "a cache existed" if had else "no cache"))
        loads += 1
        hits += had
        ctx.stat("loads with a cache on disk" if had else "loads without a cache")
        if got[0] == "ok":
            ctx.stat("classes served from the cache",
                     sum(bool(c.cached) for c in got[2].trace_classes))
            dts = sorted(set(d for t in got[1]["tables"].values() for d in t["dtypes"]))
            ctx.covered(spec["tracer"], path[-4:], had, tuple(kinds[-3:]), tuple(dts),
                        any(c.cached for c in got[2].trace_classes),
                        all(c.cached for c in got[2].trace_classes))
            if s["spoil"]:
                spoil(got[2])
        else:
            ctx.stat("loads that fail as they should")
        ctx.log("load", ops.digest(got[1]))
    ctx.nontrivial = loads >= 2 and hits >= 1
    ctx.sim_ns = sum(W.span_ns(t["w"]) for t in case["traces"])

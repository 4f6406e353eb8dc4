"""C06: loads of the same traces by several processes or threads at once are all right."""
import os

from dst import core, hist, ops, sched, seams, world as W

ID = "C06"
LEVEL = "exploration"
QUICK, THOROUGH = 2800, 30000
SHRINK = ("items", "loaders", "loads", "pre", "warm", "events", "head", "faults")
SIMPLIFY = {"dat": [False], "normalize_time": [False], "threads": [False], "nth": [0],
            "frac": [0.5], "scope": ["custom"]}
RULE = ("2-4 loaders, as separate processes or as threads of one, each make 1-3 loads of one or two "
        "traces with different arguments; a seeded schedule switches between them at file operations "
        "(and, for threads, at lines of trappy); some processes are killed or meet a full disk. Every "
        "load that survives, and one made after all of them, must equal a cache-less solo load. "
        "Non-trivial: at least two loaders were really interleaved (a switch inside a load).")
MEASURE = "(mode, formats, who was pre-empted at which operation) combinations"
REAL = ["trappy.FTrace/SysTrace with the cache", "pandas", "file contents on a scratch tree"]
STUB = ["scheduler (one thread runs at a time)", "system calls pass the simulator", "trace-cmd", "clock, pids, temp names"]
ASSUME = ["a system call is atomic; a write may be split in two by a fault",
          "simulated processes share the interpreter's memory"]


def gen(rng, i, tier):
    ntr = rng.choice([1, 1, 1, 2])
    traces = []
    for t in range(ntr):
        fmt = rng.choice(["us", "us", "t9", "ns", "sys"])
        w = W.gen_world(rng, n=rng.choice([1, 2, 4, 8, 15]), fmt=fmt,
                        users=rng.sample(W.USER_EVENTS, rng.randrange(1, 3)))
        traces.append({"w": w, "dat": fmt != "sys" and rng.random() < .25,
                       "name": ["trace", "other.v2"][t]})
    threads = rng.random() < .4
    same = rng.random()
    base = [hist.gen_spec(rng, t["w"], scopes=("custom",)) for t in traces]

    def one():
        t = rng.randrange(ntr)
        return {"trace": t, "spec": dict(base[t]) if rng.random() < same else
                hist.gen_spec(rng, traces[t]["w"], scopes=("custom",))}
    loaders = []
    for k in range(rng.choice([2, 2, 3, 4])):
        ld = {"loads": [one() for _ in range(rng.choice([1, 1, 2, 3]))], "faults": []}
        r = rng.random()
        if not threads and r < .15:
            ld["faults"] = [{"kind": "kill", "op": "mut", "role": "cache", "frac": rng.random(),
                             "nth": rng.randrange(12)}]
        elif r < .25:
            ld["faults"] = [{"kind": rng.choice(["ENOSPC", "EIO", "short"]), "op": "write",
                             "role": "cache", "nth": rng.randrange(4), "frac": rng.random()}]
        loaders.append(ld)
    lines = threads and rng.random() < .5
    top = rng.choice([60, 200, 500]) if not lines else rng.choice([500, 3000, 12000])
    pre = [[rng.randrange(1, top), rng.randrange(4)]
           for _ in range(rng.choice([1, 2, 3, 5, 8, 15, 40]))]
    warm = [one() for _ in range(rng.choice([0, 0, 1, 2]))]
    return {"traces": traces, "threads": threads, "lines": lines, "loaders": loaders,
            "pre": sorted(pre), "warm": warm,
            "stale": rng.random() < .25}


def run(case, ctx):
    fs = ctx.fs
    m = hist.Machine(ctx)
    if not case["traces"] or not case["loaders"]:
        raise core.Skip("nothing to load")
    paths = [m.put(t["name"], t["w"], t["dat"]) for t in case["traces"]]
    for wm in case["warm"]:
        m.attempt(wm["spec"], paths[wm["trace"]])
    if case["stale"] and case["warm"]:
        # the traces change after the cache was made
        for t in case["traces"]:
            m.put(t["name"], dict(t["w"], items=t["w"]["items"][:-1] + [["j", "new end"]]
                                  + t["w"]["items"][-1:]), t["dat"])
    fs.procs = [seams.Proc(5000 + (0 if case["threads"] else k)) for k in range(len(case["loaders"]))]
    results = [[] for _ in case["loaders"]]
    s = sched.Scheduler(ctx, case["pre"], line_root=core.REPO + "/trappy" if case["lines"] else None)

    def loader(k, ld):
        def body():
            for one in ld["loads"]:
                if fs.procs[k].dead:
                    return
                try:
                    got = m._load(one["spec"], paths[one["trace"]])
                except seams.SimCrash:
                    got = ("crash",)
                if fs.procs[k].dead:
                    got = ("crash",)
                results[k].append(got)
        return body
    for k, ld in enumerate(case["loaders"]):
        fs.procs[k].arm(ld["faults"])
        s.spawn(loader(k, ld))
    fs.scheduler = s
    sched.ACTIVE[0] = s
    out = s.run()
    fs.scheduler = None
    sched.ACTIVE[0] = None
    fs.current = seams.Proc(6000)
    for k, r in enumerate(out):
        if r[0] == "exc" and not isinstance(r[1], seams.SimCrash):
            raise r[1]
    crashed = 0
    for k, ld in enumerate(case["loaders"]):
        for one, got in zip(ld["loads"], results[k]):
            if got[0] == "crash":
                crashed += 1
                continue
            if got[0] == "ok":
                got = ("ok", ops.canon(got[2]), got[2])
                ctx.log("got", k, ops.digest(got[1]))
            ref = m.reference(one["spec"], paths[one["trace"]])
            m.same(got, ref, "loader %d (%s) of %d at once, trace %s"
                   % (k, "thread" if case["threads"] else "process", len(results), one["trace"]))
            ctx.stat("concurrent loads compared")
    for t, p in enumerate(paths):
        ctx.check(ops.get(p) == m.content[p], "trace-changed", "a trace file was changed")
        for spec in [ld["loads"][0]["spec"] for ld in case["loaders"]
                     if ld["loads"] and ld["loads"][0]["trace"] == t][:2]:
            m.same(m.attempt(spec, p), m.reference(spec, p), "the load after all of them")
    ctx.stat("crashed loaders", crashed)
    ctx.stat("switches", s.switches)
    pres = [e for e in ctx.events if e.startswith("pre ")]
    for e in pres:
        ctx.covered(case["threads"], e.split(" ", 2)[2], len(results))
    ctx.nontrivial = len(pres) > 0
    ctx.sim_ns = sum(W.span_ns(t["w"]) for t in case["traces"])

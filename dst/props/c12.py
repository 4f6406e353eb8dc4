"""C12: analysing a trace does not disturb it, the other analyses, or what the user passed in."""
import copy

from dst import analyses as A, core, hist, ops, scene, sched, seams, world as W

ID = "C12"
LEVEL = "exploration"
QUICK, THOROUGH = 600, 20000
SHRINK = ("items", "threads", "todo", "pre", "exprs", "signals", "triggers", "events", "levels", "index")
SIMPLIFY = {"cached": [False], "norm": [False], "line": [0], "spoil": [False], "lines": [False],
            "boom": [0], "twice": [False], "fill": [False], "permute": [False], "concat": [False]}
RULE = ("A case is the trace of a simulated phone under thermal pressure and 1-3 threads that each run 1-5 of some "
        "thirty analyses (tables, callbacks, grammar, triggers, aggregation, correlation, export, static and "
        "interactive plots, residency) on the one loaded trace. A seeded schedule switches threads at lines "
        "of trappy; user functions raise; the user interrupts at a line and tries again, and edits "
        "what was returned. Every result must equal the one the same analysis gives alone on a fresh load; "
        "the trace, the user's arguments and matplotlib's settings must be what they were. "
        "Non-trivial: at least two analyses completed on the shared trace.")
MEASURE = "(analysis, outcome, disturbance, other analyses before it) combinations"
REAL = ["the analyses and plotters of trappy", "pandas, numpy, matplotlib (Agg), pyparsing", "real threads"]
STUB = ["scheduler", "system calls pass the simulator", "uuid and clock", "IPython display without a front end"]
ASSUME = ["pyplot is used from one thread only, as matplotlib demands"]


def setup():
    A.warm()


def gen(rng, i, tier):
    w = scene.gen_scene(rng)
    kinds = list(w["kinds"])
    nthr = rng.choice([1, 1, 1, 2, 3])
    threads = []
    for k in range(nthr):
        todo = []
        for _ in range(rng.choice([1, 2, 3, 5]) if nthr > 1 else rng.choice([2, 3, 4, 6])):
            o = A.gen_op(rng, kinds, pyplot=k == 0)
            o["line"] = int(2 ** rng.uniform(0, 10)) if nthr == 1 and rng.random() < .25 else 0
            o["spoil"] = rng.random() < .3
            todo.append(o)
        if rng.random() < .4 and todo:
            todo.append(copy.deepcopy(rng.choice(todo)))
        threads.append({"todo": todo})
    spec = {"tracer": "FTrace", "scope": "custom", "normalize_time": rng.random() < .6,
            "events": sorted(set(kinds + ["devfreq_in_power", "devfreq_out_power"]))}
    return {"world": w, "spec": spec, "cached": rng.random() < .4, "threads": threads,
            "lines": rng.random() < .85,
            "pre": sorted([rng.randrange(1, rng.choice([50, 500, 4000])), rng.randrange(3)]
                          for _ in range(rng.choice([1, 4, 12, 40]))) if nthr > 1 else []}


def run(case, ctx):
    m = hist.Machine(ctx)
    path = m.put("trace", case["world"])
    spec = case["spec"]
    kinds = case["world"]["kinds"]
    if case["cached"]:
        ops.load(spec, path)
    ref = []
    m.content[path + ".copy"] = None
    for c in m.classes:
        c.disable_cache = True
    n = 0
    for t in case["threads"]:
        for o in t["todo"]:
            fresh = ops.load(spec, path)
            env = A.Env(ctx.dir, n)
            o["n"] = n
            n += 1
            rc = A.rc_digest()
            ref.append(A.execute(o, fresh, env)[:2])
            ctx.check(A.rc_digest() == rc, "settings", "%s changes the settings of the plotters" % o["op"])
            ctx.stat("analyses alone")
    for c in m.classes:
        del c.disable_cache
    trace = ops.load(spec, path)
    whole = ops.canon(trace)
    before = ops.digest(whole)
    rc = A.rc_digest()
    s = sched.Scheduler(ctx, case["pre"], line_root=core.REPO + "/trappy"
                        if case["lines"] and len(case["threads"]) > 1 else None)
    problems, done = [], []
    serial = len(case["threads"]) == 1

    def untouched(what):
        now = ops.canon(trace)
        if ops.digest(now) != before:
            problems.append(("trace-changed", "%s changed the trace: %s" % (what, ops.diff(whole, now))))

    def one(tid, o):
        env = A.Env(ctx.dir, "%d.%d" % (tid, o["n"]))
        hit = False
        if o["line"] and serial:
            li = sched.LineInterrupt(core.REPO + "/trappy", o["line"], KeyboardInterrupt)
            with li:
                got = A.execute(o, trace, env)
            hit = li.fired
            if hit:
                ctx.fault("interrupt@line")
                untouched("%s, interrupted," % o["op"])
                if A.rc_digest() != rc:
                    problems.append(("settings", "%s, interrupted, changes the settings" % o["op"]))
                env = A.Env(ctx.dir, "%d.%dr" % (tid, o["n"]))
                got = A.execute(o, trace, env)
        else:
            got = A.execute(o, trace, env)
        s.point("between analyses")
        what = "%s %s" % (o["op"], o["a"])
        if got[0] == "exc" and got[1] == "Boom":
            ctx.fault("user-function-raises")
        d = ops.diff(list(got[:2]), list(ref[o["n"]]))
        if d:
            problems.append(("result", "%s gives something else than on a fresh trace after %s: %s %s"
                             % (what, done[-4:], d, got[2] if got[0] == "exc" else "")))
        bad = env.disturbed()
        if bad:
            problems.append(("arguments", "%s changes the user's %s" % (what, bad)))
        ctx.covered(o["op"], got[0], hit, len(case["threads"]), tuple(done[-1:]))
        ctx.log("analysis", tid, o["op"], got[0], ops.digest(list(got[:2])))
        done.append(o["op"])
        ctx.stat("analyses on the shared trace")
        if o["spoil"] and got[0] == "ok":
            ctx.fault("caller-edits-result")
            A.spoil(got[2])
        if serial:
            untouched(what)
            if A.rc_digest() != rc:
                problems.append(("settings", "%s changes the settings of the plotters" % what))
        if problems and serial:
            ctx.violate(*problems[0])

    def body(tid, todo):
        def run_thread():
            for o in todo:
                one(tid, o)
        return run_thread
    if serial:
        body(0, case["threads"][0]["todo"])()
    else:
        for tid, t in enumerate(case["threads"]):
            s.spawn(body(tid, t["todo"]))
        ctx.fs.scheduler = s
        s.fs_steps = False
        out = s.run()
        ctx.fs.scheduler = None
        for r in out:
            if r is not None and r[0] == "exc":
                raise r[1]
    untouched("the analyses")
    if A.rc_digest() != rc:
        problems.append(("settings", "the analyses change the settings of the plotters"))
    for cls, msg in problems:
        ctx.violate(cls, msg)
    again = ops.canon(ops.load(spec, path))
    ctx.check(ops.digest(again) == before, "later-load",
              lambda: "a later load differs: %s" % ops.diff(whole, again))
    ctx.stat("switches", s.switches)
    ctx.nontrivial = len(done) > 1
    ctx.sim_ns = W.span_ns(case["world"])

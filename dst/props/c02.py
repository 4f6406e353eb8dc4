"""C02: event times are unique, follow file order, and keep the traced stamp."""
from dst import ops, world as W

ID = "C02"
LEVEL = "exploration"
QUICK, THOROUGH = 1600, 30000
SHRINK = ("items", "events", "events2")
SIMPLIFY = {"norm": [False], "cached": [False]}
RULE = ("A case is a simulated machine whose per-CPU clocks tie, drift, step backwards and jump "
        "(offsets up to an hour, resolution us/ns), merged into one buffer in arrival order, and "
        "two loads of it: one of everything and one of a random subset of the event types, "
        "optionally through the cache. Non-trivial: some event ties with or precedes an earlier one.")
MEASURE = "(format, clock faults met, subset loaded, cached) combinations"
REAL = ["trappy.FTrace/SysTrace, parser classes, cache", "pandas"]
STUB = ["the traced machine and its clocks", "file system calls (pass-through)", "temp names"]
ASSUME = ["stamps below 10^7 s, the range in which nextafter shifts stay far below 1 us"]


def gen(rng, i, tier):
    w = W.gen_world(rng, n=rng.choice([2, 3, 4, 8, 20, 60, 150]), ties=0, back=0,
                    users=rng.sample(["evt_alpha", "evt_beta"], rng.randrange(0, 3)),
                    kinds=rng.sample(["sched_switch", "sched_wakeup", "cpu_frequency", "cpu_idle",
                                      "sched_migrate_task", "clk_on", "sys_exit", "thermal"],
                                     rng.randrange(1, 5)),
                    junk=rng.choice([0, .1]))
    ncpu = w["ncpu"]
    unit = 1000 if w["fmt"] in ("us", "sys") else 1
    base = rng.choice([10**9, 10**12, 5 * 10**15, 9 * 10**15]) + rng.randrange(10**9)
    off = [0] * ncpu
    faults = []
    p_tie, p_step, p_jump = rng.choice([(0, 0, 0), (.5, 0, 0), (.3, .2, 0), (.1, .1, .1),
                                        (.9, .02, .02), (0, .4, 0), (.2, 0, .3)])
    now = base
    for it in w["items"]:
        if it[0] != "e":
            continue
        r = rng.random()
        if r >= p_tie:
            now += rng.choice([1, 1, 2, 3, 100, 10**4, 10**7]) * unit
        else:
            faults.append("tie")
        if rng.random() < p_step:
            off[it[2]] -= rng.choice([1, 2, 5, 1000, 10**6, 10**9]) * unit
            faults.append("step-back")
        if rng.random() < p_jump:
            off[it[2]] += rng.choice([10**3, 10**6, 10**9, 3600 * 10**9])
            faults.append("jump")
        if rng.random() < .05:
            off[it[2]] = 0
        it[1] = max(1000, now + off[it[2]])
    evs = sorted(set(W.attr_of(it) for it in W.events(w)))
    return {"world": w, "events2": rng.sample(evs, rng.randrange(1, len(evs) + 1)),
            "norm": rng.random() < .5, "cached": rng.random() < .4, "clock": sorted(set(faults))}


def run(case, ctx):
    import trappy
    w = case["world"]
    path = ctx.dir + "/traces/" + W.path_name(w)
    ops.put(path, W.render(w))
    for c in (trappy.FTrace, trappy.SysTrace):
        c.disable_cache = not case["cached"]
    evs = sorted(set(W.attr_of(it) for it in W.events(w)))
    if not evs:
        return
    stamps = [W.stamp_value(w["fmt"], it[1]) for it in W.events(w)]
    for k in case["clock"]:
        ctx.fault("clock-" + k)
    tr = "SysTrace" if w["fmt"] == "sys" else "FTrace"
    spec = {"tracer": tr, "scope": "custom", "events": evs, "normalize_time": case["norm"]}
    t = ops.load(spec, path)
    check(ctx, case, t, evs, stamps)
    if case["cached"]:
        check(ctx, case, ops.load(spec, path), evs, stamps, "cached ")
    full = dict((m[0], m[2]) for m in ops.file_order(t, evs))
    sub = [e for e in case["events2"] if e in evs]
    if sub:
        for p in (path, None):
            if p is None:
                # the same bytes under another name: no cache yet
                p = ctx.dir + "/traces/other" + path[path.rindex("."):]
                ops.put(p, W.render(w))
            t2 = ops.load(dict(spec, events=sub), p)
            for line, attr, tm, _ in ops.file_order(t2, sub):
                ctx.check(line in full and full[line] == tm, "time-depends-on-selection",
                          lambda: "%s at line %s has time %r when %s are loaded, %r when all are"
                          % (attr, line, tm, sub, full.get(line)))
            want = [t_ for l, a, t_, _ in ops.file_order(t, evs) if a in sub]
            got = [m[2] for m in ops.file_order(t2, sub)]
            ctx.check(want == got, "time-depends-on-selection",
                      lambda: "times of %s differ when loaded alone" % sub)
    ctx.nontrivial = any(stamps[k] <= max(stamps[:k]) for k in range(1, len(stamps)))
    ctx.sim_ns = W.span_ns(w)
    ctx.covered(w["fmt"], ",".join(case["clock"]), len(sub), case["cached"], case["norm"], len(stamps))
    ctx.log("t", ops.digest(ops.canon(t)))


def check(ctx, case, trace, evs, stamps, what=""):
    merged = ops.file_order(trace, evs)
    ctx.check(len(merged) == len(stamps), "event-count",
              lambda: "%s%d events reported, %d traced" % (what, len(merged), len(stamps)))
    times = [m[2] for m in merged]
    base = stamps[0] if case["norm"] else 0.0
    ctx.check(trace.basetime == stamps[0], "basetime",
              lambda: "basetime %r, first stamp %r" % (trace.basetime, stamps[0]))
    high = None
    prev = None
    raw = []
    for i, (s, t) in enumerate(zip(stamps, times)):
        if prev is not None:
            ctx.check(t > prev, "times-not-increasing",
                      lambda: "%sevent %d (%s) has time %r, the one before %r"
                      % (what, i, merged[i][1], t, prev))
        prev = t
        if high is None or s > high:
            # nothing before is that late: the stamp is kept, to the last bit
            # (a run of ties may only reach it if it is closer than 1 us)
            prior = raw[-1] if raw else None
            if prior is None or s - high > 1e-6:
                ctx.check(t == s - base, "stamp-changed",
                          lambda: "%sevent %d is stamped %r (base %r) but has time %r"
                          % (what, i, s, base, t))
            high = s
        ctx.check(abs((t + base) - high) < 1e-6, "shifted-too-far",
                  lambda: "%sevent %d: time %r (base %r), the latest stamp so far is %r"
                  % (what, i, t, base, high))
        raw.append(t + base)
    ctx.check(abs(trace.endtime - high) < 1e-6, "endtime",
              lambda: "%sendtime %r, latest stamp %r" % (what, trace.endtime, high))
    dur = trace.get_duration()
    ctx.check(abs(dur - (high - stamps[0])) < 2e-6, "duration",
              lambda: "%sduration %r, from %r to %r" % (what, dur, stamps[0], high))

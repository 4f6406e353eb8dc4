"""C10: apply_callbacks delivers every event once, in trace order, whatever else goes on."""
from dst import core, hist, ops, sched, world as W

ID = "C10"
LEVEL = "exploration"
QUICK, THOROUGH = 2500, 40000
SHRINK = ("items", "drivers", "passes", "events", "head", "pre", "acts")
SIMPLIFY = {"norm": [False], "cached": [False], "act": [None], "lines": [False]}
RULE = ("A trace of a simulated machine with tying and back-stepping clocks, loaded (parsed or from the cache, "
        "with or without window and normalisation), and 1-3 drivers (threads of one process) that make 1-3 "
        "passes over subsets of the event types. Callbacks may raise, start another pass, load another trace or "
        "change the table they were called for, and the user may interrupt at a line of trappy; a seeded schedule switches "
        "threads at lines and callbacks. Every pass must deliver exactly the events of its types in file order "
        "up to where it was stopped. Non-trivial: at least two event types were merged.")
MEASURE = "(types merged, disturbance, concurrency, source) combinations"
REAL = ["apply_callbacks on tables that trappy loaded", "pandas itertuples", "real threads"]
STUB = ["scheduler (one thread runs at a time)", "system calls pass the simulator", "clock"]
ASSUME = ["no traced field is called Index"]


class Boom(Exception):
    pass


def gen(rng, i, tier):
    w = W.gen_world(rng, n=rng.choice([1, 2, 4, 8, 20, 50]), ties=rng.choice([0, .1, .6]),
                    back=rng.choice([0, .05, .3]), marks=False,
                    users=rng.sample(W.USER_EVENTS[:3], rng.randrange(0, 3)),
                    kinds=rng.sample([k for k in W.KINDS if k not in ("user", "umark", "mark", "atrace")],
                                     rng.randrange(1, 6)))
    evs = sorted(set(W.attr_of(it) for it in W.events(w)))
    extra = [e for e in ("cpu_idle", "evt_none") if e not in evs]
    stamps = [W.stamp_value(w["fmt"], it[1]) for it in W.events(w)]
    drivers = []
    for d in range(rng.choice([1, 1, 2, 3])):
        passes = []
        for p in range(rng.choice([1, 2, 3])):
            sub = rng.sample(evs, rng.randrange(1, len(evs) + 1)) if evs else []
            if rng.random() < .2:
                sub = sub + [rng.choice(extra)]
            acts = []
            for _ in range(rng.choice([0, 0, 1, 2])):
                acts.append([rng.randrange(0, max(1, len(stamps))),
                             rng.choice(["raise", "raise", "intr", "nest", "load", "spoil"])])
            ps = {"events": sub, "acts": acts, "line": 0}
            if rng.random() < .12:
                ps["line"] = int(2 ** rng.uniform(0, 9))
            passes.append(ps)
        drivers.append({"passes": passes})
    win = None
    if stamps and rng.random() < .2:
        a, b = sorted([rng.choice(stamps), rng.choice(stamps)])
        win = [a, b]
    return {"world": w, "norm": rng.random() < .5, "cached": rng.random() < .4, "win": win,
            "drivers": drivers, "lines": rng.random() < .6,
            "pre": sorted([rng.randrange(1, rng.choice([30, 300, 2000])), rng.randrange(3)]
                          for _ in range(rng.choice([0, 2, 5, 20, 60])))}


def expected(trace, events):
    """(type, time, row) of each event, in file order, from the tables."""
    return [(a, t, r) for _, a, t, r in ops.file_order(trace, events)]


def run(case, ctx):
    import trappy
    w = case["world"]
    m = hist.Machine(ctx)
    path = m.put("trace", w)
    evs = sorted(set(W.attr_of(it) for it in W.events(w)))
    spec = {"tracer": "SysTrace" if w["fmt"] == "sys" else "FTrace", "scope": "custom",
            "events": evs + ["cpu_idle", "evt_none"] * 1, "normalize_time": case["norm"]}
    spec["events"] = sorted(set(spec["events"]))
    if case["win"]:
        spec["abs_window"] = case["win"]
    if case["cached"]:
        ops.load(spec, path)
    trace = ops.load(spec, path)
    if not case["win"]:
        tr = W.truth(w)
        want = sorted((r["seq"], a) for a in tr for r in tr[a])
    exp_cache = {}

    def exp(events):
        key = tuple(sorted(set(events)))
        if key not in exp_cache:
            e = expected(trace, key)
            if not case["win"]:
                names = [a for _, a in want if a in key]
                ctx.check([x[0] for x in e] == names, "tables",
                          lambda: "the tables hold %s, the trace %s" % ([x[0] for x in e][:20], names[:20]))
            exp_cache[key] = e
        return exp_cache[key]
    for d in case["drivers"]:
        for p in d["passes"]:
            exp(p["events"])
    other = m.put("second", dict(w, items=w["items"][:3]))
    s = sched.Scheduler(ctx, case["pre"], line_root=core.REPO + "/trappy"
                        if case["lines"] and len(case["drivers"]) > 1 else None)
    problems = []
    lis = [None]
    merged = [0]

    def same_event(want_ev, got):
        a, t, r = want_ev
        name, dct = got
        if name != a:
            return "%s instead of %s" % (name, a)
        if "Index" not in dct or ops.cell(dct["Index"]) != ops.cell(t):
            return "%s at %r has Index %r" % (a, t, dct.get("Index"))
        ks = set(dct) - {"Index"}
        if ks != set(r):
            return "%s: keys %s, columns %s" % (a, sorted(ks), sorted(r))
        for k in r:
            x, y = ops.cell(dct[k]), ops.cell(r[k])
            if x != y:
                return "%s at %r: %s is %r, the table has %r" % (a, t, k, dct[k], r[k])
        return ""

    def one_pass(did, events, acts, line, depth=0):
        got = []
        kept = []
        acts = dict((k, v) for k, v in reversed(acts))
        stop = [None]

        def make(ev):
            def cb(row):
                got.append((ev, dict(row)))
                n = len(got) - 1
                s.point("callback")
                act = acts.get(n)
                if act != "spoil":
                    kept.append((n, row))
                if act is None:
                    return
                if act == "raise":
                    stop[0] = Boom
                    ctx.fault("callback-raises")
                    raise Boom()
                if act == "intr":
                    stop[0] = KeyboardInterrupt
                    ctx.fault("callback-interrupted")
                    raise KeyboardInterrupt()
                if act == "nest" and depth == 0:
                    ctx.fault("callback-starts-a-pass")
                    one_pass(did, events, [], 0, 1)
                if act == "load" and len(case["drivers"]) == 1:
                    ctx.fault("callback-loads-a-trace")
                    ops.load(dict(spec, normalize_time=True), other)
                if act == "spoil" and len(case["drivers"]) == 1:
                    # it scribbles on what it was given
                    ctx.fault("callback-changes-its-event")
                    for k in list(row):
                        row[k] = None
                    row.clear()
            return cb
        fn_map = dict((e, make(e)) for e in events)
        raised = None
        li = None if depth == 0 else lis[-1]
        try:
            if line and len(case["drivers"]) == 1:
                li = sched.LineInterrupt(core.REPO + "/trappy", line, KeyboardInterrupt)
                lis.append(li)
                with li:
                    trace.apply_callbacks(fn_map)
            else:
                trace.apply_callbacks(fn_map)
        except (Boom, KeyboardInterrupt) as e:
            raised = type(e)
        except Exception as e:
            problems.append(("raised", "a pass over %s raised %s: %s" % (events, type(e).__name__, e)))
            return
        hit = li is not None and li.fired
        if hit:
            ctx.fault("interrupted-at-a-line")
        e = exp_cache[tuple(sorted(set(events)))]
        if stop[0] is not None and raised is not stop[0] and not hit:
            problems.append(("swallowed", "a callback raised %s, apply_callbacks %s"
                             % (stop[0].__name__, raised)))
        if stop[0] is None and not hit and len(got) != len(e):
            problems.append(("count", "a pass over %s delivered %d events of %d" % (events, len(got), len(e))))
        if stop[0] is not None and not hit and got and len(got) - 1 not in acts:
            problems.append(("after-stop", "callbacks went on after one raised"))
        for k, g in enumerate(got):
            if k >= len(e):
                problems.append(("count", "more events delivered than there are"))
                break
            d = same_event(e[k], g)
            if d:
                problems.append(("event", "delivery %d of a pass over %s: %s" % (k, events, d)))
                break
        # what a callback kept is still the event it was given
        for n, row in kept:
            if repr(row) != repr(got[n][1]):
                problems.append(("kept", "the event of delivery %d of a pass over %s was %s and became %s"
                                 % (n, events, got[n][1], row)))
                break
        if len(set(x[0] for x in e)) > 1:
            merged[0] += 1
        ctx.covered(len(set(events)), sorted(set(acts.values())), raised, len(case["drivers"]),
                    case["cached"], bool(case["win"]), hit, depth)
        ctx.stat("passes checked")
        ctx.stat("events delivered", len(got))
        ctx.log("pass", did, len(got), raised)

    def driver(did, d):
        def body():
            for p in d["passes"]:
                one_pass(did, p["events"], p["acts"], p["line"])
        return body
    for did, d in enumerate(case["drivers"]):
        s.spawn(driver(did, d))
    ctx.fs.scheduler = s
    s.fs_steps = False
    out = s.run()
    ctx.fs.scheduler = None
    for r in out:
        if r is not None and r[0] == "exc":
            raise r[1]
    for cls, msg in problems:
        ctx.violate(cls, msg)
    # the tables are still what they were
    for key, e in exp_cache.items():
        now = expected(trace, key)
        ctx.check(repr(now) == repr(e), "tables-changed", "passes over %s changed the tables" % (key,))
    ctx.stat("switches", s.switches)
    ctx.nontrivial = merged[0] > 0
    ctx.sim_ns = W.span_ns(w)

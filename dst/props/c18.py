"""C18: the task residency plot shows what the scheduler of the traced machine did."""
import json
import warnings

from dst import core, hist, ops, world as W

ID = "C18"
LEVEL = "exploration"
QUICK, THOROUGH = 3000, 40000
SHRINK = ("items", "calls")
SIMPLIFY = {"norm": [False], "plot": [False], "execnames": [None], "pids": [None], "win": [None]}
RULE = ("A simulated scheduler switches 1-8 tasks on 1-4 CPUs: tasks migrate, are renamed by exec, exit, pids are "
        "reused, clocks of CPUs tie; per-CPU buffers lose single events, runs of events, and whatever came "
        "before or after the recording. The recorded switches are loaded as an ftrace or systrace text among other "
        "events and asked for task residency 1-3 times with and without filters by name and pid. Every interval "
        "shown must start at a recorded switch to the task and end at the switch from it on the same CPU, with no recorded event between them "
        "that contradicts it; every such pair of switches must be shown; a task never switched out lasts to the end. "
        "Non-trivial: at least two intervals and one lost event, rename or migration.")
MEASURE = "(lost events, renames, contradictions, filter, source) combinations"
REAL = ["loading, get_trace_event_data, plot_trace, EventPlot's data"]
STUB = ["the traced machine and its buffers", "system calls pass the simulator", "EventPlot.view keeps the plot instead of displaying it"]
ASSUME = ["stamps do not step back", "tasks named migration* and pid 0 are not shown (as the code says)"]

NAMES = ["bash", "kworker/0:1", "task", "task1", "Binder_2", "sh", "ls", "sleep", "surfaceflinger", "RenderThread", "123", "7",
         "a-1", "m", "migration/1", "ksoftirqd/0", "1e5", "<idle>", "swapperd", "swapper/1"]


def gen(rng, i, tier):
    ncpu = rng.choice([1, 2, 2, 4])
    pool = NAMES if rng.random() < .8 else ["123", "7", "42"]
    tasks = dict((p, rng.choice(pool)) for p in rng.sample(range(1, 60), rng.randrange(1, 9)))
    on = [0] * ncpu
    fmt = rng.choice(["us", "us", "t9", "sys"])
    t = rng.randrange(1, 10 ** 6) * 1000000
    evs = []
    n = rng.choice([2, 4, 8, 16, 40])
    renames = rng.choice([0, 0, .1, .4])
    idle = rng.choice(["swapper/%d", "swapper/%d", "swapper", "<idle>"])
    for _ in range(n):
        t += rng.choice([0, 0, 1000, 5000, 10 ** 6, rng.randrange(1, 10 ** 5) * 1000])
        c = rng.randrange(ncpu)
        cand = [p for p in sorted(tasks) if p not in on] + [0]
        nxt = rng.choice(cand)
        if nxt == on[c]:
            continue
        if on[c] and rng.random() < renames:
            tasks[on[c]] = rng.choice(pool)
        name = lambda p: tasks[p] if p else idle.replace("%d", str(c))
        evs.append([t, c, on[c], name(on[c]), nxt, name(nxt)])
        on[c] = nxt
        if rng.random() < .05:
            p = rng.choice(sorted(tasks))
            if p not in on:
                tasks[p] = rng.choice(pool)
    loss = rng.choice([0, 0, .05, .2, .5])
    lost = set()
    k = 0
    while k < len(evs):
        if rng.random() < loss:
            run = rng.choice([1, 1, 2, 5])
            c = evs[k][1]
            mine = [j for j in range(k, len(evs)) if evs[j][1] == c][:run]
            lost.update(mine)
        k += 1
    items = []
    for k, (t, c, pp, pn, np_, nn) in enumerate(evs):
        if rng.random() < .1:
            items.append(["e", t, rng.randrange(ncpu), "bash", 11, "cpu_idle", [["state", "0"], ["cpu_id", str(c)]]])
        if k in lost:
            if rng.random() < .5:
                items.append(["j", "CPU:%d [LOST 1 EVENTS]" % c])
            continue
        items.append(["e", t, c, pn, pp, "sched_switch", [pn, str(pp), "120", rng.choice(["S", "R", "D"]), nn, str(np_), "120", k % 2]])
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        call = {"execnames": None, "pids": None, "plot": rng.random() < .4}
        r = rng.random()
        names = sorted(set(tasks.values()))
        if r < .15:
            call["execnames"] = rng.choice(names)
        elif r < .3:
            call["execnames"] = rng.sample(names, rng.randrange(1, len(names) + 1))
        if rng.random() < .25:
            call["pids"] = rng.choice([rng.choice(sorted(tasks)), rng.sample(sorted(tasks), rng.randrange(1, len(tasks) + 1))])
        calls.append(call)
    return {"world": {"fmt": fmt, "ncpu": ncpu, "items": items, "head": ["cpus=%d" % ncpu] if rng.random() < .5 else [],
                      "users": [], "nl": True},
            "norm": rng.random() < .5, "calls": calls, "renames": renames > 0}


def expected(evs, end, names, pids):
    """What to show, from the recorded switches: [(name, start, end, cpu)], and the contradictions."""
    show, bad = [], 0
    for k, (t, cpu, prev, nxt, comm) in enumerate(evs):
        if nxt == 0 or comm.startswith("migration"):
            continue
        if names and comm not in names or pids and nxt not in pids:
            continue
        for t2, cpu2, prev2, nxt2, _ in evs[k + 1:]:
            if cpu2 == cpu or nxt in (prev2, nxt2):
                if cpu2 == cpu and prev2 == nxt:
                    show.append(("%s-%d" % (comm, nxt), t, t2, cpu))
                else:
                    bad += 1
                break
        else:
            show.append(("%s-%d" % (comm, nxt), t, end, cpu))
    return show, bad


def plotted(plot):
    """What a plot will hand to the browser, whatever it calls it."""
    return [json.loads(v) for v in vars(plot).values() if isinstance(v, str) and v.startswith("{") and '"lanes"' in v][0]


def setup():
    import trappy.plotter.EventPlot    # noqa


def run(case, ctx):
    import trappy
    from trappy.plotter import EventPlot as EP, Utils
    w = case["world"]
    m = hist.Machine(ctx)
    path = m.put("trace", w)
    tracer = trappy.SysTrace if w["fmt"] == "sys" else trappy.FTrace
    trace = tracer(path, normalize_time=case["norm"])
    rec = [it for it in W.events(w) if it[5] == "sched_switch"]
    df = trace.sched_switch.data_frame
    ctx.check(len(df) == len(rec), "loaded", lambda: "%d switches of %d loaded" % (len(df), len(rec)))
    shown = []
    EP.EventPlot.view = lambda self: shown.append(self)
    if not rec:
        return
    times = df.index.tolist()
    evs = [(t, it[2], int(it[6][1]), int(it[6][5]), it[6][4]) for t, it in zip(times, rec)]
    lost = any(it[0] == "j" for it in w["items"])
    most = bads = 0
    for call in case["calls"]:
        names = [call["execnames"]] if isinstance(call["execnames"], str) else call["execnames"]
        pids = [call["pids"]] if isinstance(call["pids"], int) else call["pids"]
        want, bad = expected(evs, times[-1], names, pids)
        what = "residency of %s" % ({k: v for k, v in call.items() if v} or "all")
        with warnings.catch_warnings(record=True) as warned:
            warnings.simplefilter("always")
            data, procs, window = Utils.get_trace_event_data(trace, call["execnames"], call["pids"])
        got = sorted((n, a, b, c) for n in data for a, b, c in data[n])
        want.sort()
        ctx.check([g for g in got if g not in want] == [], "shown-wrong",
                  lambda: "%s shows %s, the trace does not have that; it has %s"
                  % (what, [g for g in got if g not in want][:3], want[:6]))
        ctx.check(got == want, "not-shown", lambda: "%s lacks %s" % (what, [g for g in want if g not in got][:3] or "duplicates"))
        ctx.check(set(n for n, _, _, _ in want) <= set(procs), "names", lambda: "%s: names %s" % (what, sorted(procs)))
        ctx.check(list(window) == [times[0], times[-1]], "window", lambda: "%s: window %s" % (what, window))
        told = [str(x.message) for x in warned if "orrupted" in str(x.message)]
        ctx.check(bool(told) <= bool(bad), "false-warning", lambda: "%s warns %s" % (what, told[:2]))
        ctx.check(bool(bad) <= bool(told), "no-warning", lambda: "%s: dropped intervals without a word" % what)
        most, bads = max(most, len(want)), bads + bad
        ctx.covered(min(bad, 3), case["renames"], bool(names), bool(pids), w["fmt"], w["ncpu"], call["plot"])
        ctx.log("residency", len(want), bad, len(told))
        ctx.stat("intervals", len(want))
        if bad:
            ctx.fault("contradictions from lost events", bad)
        if call["plot"]:
            # by its name it is loaded anew, with times from its start
            by_name = case["norm"] and len(rec) % 2
            trappy.plotter.plot_trace(path if by_name else trace, call["execnames"], call["pids"])
            g = plotted(shown.pop())
            got = sorted((n, a, b, int(lane)) for n in g["data"] for lane in g["data"][n] for a, b in g["data"][n][lane])
            ctx.check(got == want, "plot", lambda: "%s: the plot shows %s instead of %s" % (what, got[:3], want[:3]))
            lanes = [l["id"] for l in g["lanes"]]
            ctx.check(set(c for _, _, _, c in want) <= set(lanes), "lanes", lambda: "%s: CPUs %s are drawn on lanes %s"
                      % (what, sorted(set(c for _, _, _, c in want)), lanes))
            longer = set(n for n, a, b, _ in want if b > a)
            ctx.check(set(g["keys"]) == longer, "keys", lambda: "%s: keys %s instead of %s" % (what, g["keys"], sorted(longer)))
    if lost:
        ctx.fault("lost-events", sum(it[0] == "j" for it in w["items"]))
    ctx.nontrivial = most >= 2 and (lost or bads > 0 or case["renames"] or w["ncpu"] > 1)
    ctx.sim_ns = W.span_ns(w)

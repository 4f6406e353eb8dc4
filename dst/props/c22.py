"""C22: an aggregation counts each qualifying event once, at its time and in its groups; copies of a behaviour correlate."""
import copy
import math

from dst import analyses as A, core, hist, ops, scene, sched, world as W

ID = "C22"
LEVEL = "exploration"
QUICK, THOROUGH = 3000, 60000
SHRINK = ("items", "behaviour", "triggers", "asked", "extra", "groups")
SIMPLIFY = {"line": [0], "norm": [False], "single": [False], "other": [None], "lead": [0], "delay": [0], "agg": [None]}
RULE = ("A case is either the recordings of one or two simulated phones (per-CPU buffers, events and kinds lost, tied stamps), "
        "triggers with value, list and function filters, a topology built in steps, an aggregation function, and 1-5 questions for "
        "its levels; every answer is compared with a model that counts the recorded events. Or it is one behaviour of "
        "several CPUs recorded by two machines that start at other moments with other sampling, whose aggregations "
        "are correlated and plotted; compared with a model of the alignment, and a copy must correlate fully. Calls are interrupted "
        "and repeated. Non-trivial: an answer with a qualifying event was compared.")
MEASURE = "(kind, filters, levels, function, single, traces, questions before) combinations"
REAL = ["trappy.stats (Aggregator, Trigger, Topology, Indexer, Correlator)", "PlotLayout", "pandas, numpy, matplotlib (Agg)"]
STUB = ["the traced machines", "the user"]
ASSUME = ["a trigger whose table has no event at all may be refused",
          "correlating behaviours none of which has a sample other than zero is refused"]

DELTA = 25000  # ns, StatConf.DELTA_DEFAULT


def setup():
    A.warm()


# ------------------------------------------------------------------ generation
NODES = {"evt_alpha": [0, 1, 2, 3], "cpu_frequency": list(range(8)), "thermal": [0, 1], "cpu_idle": list(range(8)),
         "cpu_in_power": ["0000000f", "000000f0"], "cpu_out_power": ["0000000f", "000000f0"],
         "sched_wakeup": list(range(8)), "sched_switch": list(range(8)), "thermal_governor": [0, 1]}
PIVOT = dict(A.PIVOTS, thermal_governor="thermal_zone_id")


def g_filter(rng, k):
    out = {}
    for c in rng.sample(A.COLS[k] + ["__cpu", "__pid", "nosuch"], rng.choice([0, 1, 1, 2])):
        r = rng.random()
        if c == "nosuch":
            out[c] = 3
        elif r < .4:
            out[c] = {"fn": rng.choice(["even", "low", "stateful"])}
        elif r < .7:
            out[c] = {"pick": [rng.randrange(50)]}
        else:
            out[c] = {"pick": [rng.randrange(50) for _ in range(rng.choice([2, 3, 5]))]}
    return out


def g_groups(rng, nodes):
    pool = list(nodes)
    rng.shuffle(pool)
    out = []
    while pool and len(out) < 4:
        n = rng.randrange(1, len(pool) + 1)
        out.append(pool[:n])
        pool = pool[n:]
    if rng.random() < .2:
        out.append(rng.sample(list(nodes), rng.randrange(1, len(nodes) + 1)))
    return out


def g_agg_case(rng):
    w = scene.gen_scene(rng)
    kinds = [k for k in w["kinds"] if k in PIVOT]
    if not kinds:
        w = scene.gen_scene(rng, kinds=["cpu_frequency", "cpu_idle", "sched_switch", "evt_alpha"])
        kinds = [k for k in w["kinds"] if k in PIVOT]
    masks = [k for k in kinds if "power" in k]
    ints = [k for k in kinds if "power" not in k]
    fam = masks if masks and (not ints or rng.random() < .3) else ints
    trig = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        k = rng.choice(fam)
        trig.append({"event": k, "trace": 0, "filters": g_filter(rng, k),
                     "value": rng.choice([1, -1, 2.5, 1, rng.choice(A.COLS[k])])})
    other = None
    if rng.random() < .2:
        other = scene.gen_scene(rng, kinds=sorted(w["kinds"]))
        for t in trig:
            t["trace"] = rng.randrange(2)
    nodes = NODES[rng.choice(fam)]
    extra = [[rng.choice(["cluster", "mine", "pairs"]), g_groups(rng, nodes)] for _ in range(rng.choice([0, 0, 1, 2]))]
    lose(rng, w)
    return {"kind": "agg", "world": w, "other": other, "triggers": trig,
            "groups": g_groups(rng, nodes) if rng.random() < .85 or not extra else [], "extra": extra,
            "late": rng.random() < .3, "single": len(trig) == 1 and rng.random() < .4,
            "agg": rng.choice([None, None, "cumsum", "scale", "sum", "max", "kw"]),
            "asked": [{"level": rng.choice(["all", "cluster", "cpu", "mine", "pairs", "nosuch"]), "factor": rng.choice([1, 2, -3]),
                       "line": int(2 ** rng.uniform(0, 9)) if rng.random() < .12 else 0} for _ in range(rng.choice([1, 2, 3, 5]))],
            "spec": {"tracer": "FTrace", "scope": "custom", "normalize_time": rng.random() < .6,
                     "events": sorted(set(w["kinds"] + [t["event"] for t in trig]))}}


def lose(rng, w):
    if rng.random() < .3:
        a, b = sorted((rng.randrange(len(w["items"]) + 1), rng.randrange(len(w["items"]) + 1)))
        if b - a < len(w["items"]) - 3:
            w["items"][a:b] = [["j", "CPU:%d [LOST EVENTS]" % rng.randrange(w["ncpu"])]] if rng.random() < .5 else []


def g_corr_case(rng):
    """A behaviour: [(slot, cpu, state)], recorded by two machines."""
    t, beh = rng.randrange(0, 50), []
    for _ in range(rng.choice([2, 4, 8, 16])):
        t += rng.choice([1, 2, 3, 10, 40])
        beh.append([t, rng.randrange(4), rng.choice([0, 1, 1, 2])])
    second = None
    if rng.random() < .4:
        t, second = rng.randrange(0, 50), []
        for _ in range(rng.choice([2, 4, 8])):
            t += rng.choice([1, 2, 3, 10, 40])
            second.append([t, rng.randrange(4), rng.choice([0, 1, 1, 2])])
        if rng.random() < .3:
            # one is done long before the other begins: aligned at one end, they have little in common
            far, by = rng.choice([beh, second]), rng.choice([60, 150])
            for e in far:
                e[0] += by
    return {"kind": "corr", "behaviour": beh, "second": second, "delay": rng.choice([0, 0, 1, 7, 60, 200]),
            "lead": rng.choice([0, 1, 5, 30]), "tail": rng.choice([0, 1, 20]), "start": rng.randrange(10, 10**6),
            "groups": g_groups(rng, range(4)), "agg": rng.choice([None, "cumsum", "cumsum", "scale", "kw"]),
            "corrfunc": rng.random() < .3, "plot": rng.random() < .25, "per_line": rng.choice([1, 2, 3]),
            "values": rng.choice([[1, -1], [1, -1], [2, 1], [1, 0]]), "closed": rng.random() < .6,
            "asked": [{"level": rng.choice(["all", "cluster", "cpu"]), "line": int(2 ** rng.uniform(0, 9)) if rng.random() < .15 else 0}
                      for _ in range(rng.choice([1, 2]))], "sudden": [rng.random() < .4, rng.random() < .4]}


def gen(rng, i, tier):
    return g_corr_case(rng) if rng.random() < .4 else g_agg_case(rng)


# ------------------------------------------------------------------ the user's functions
def make_filter(f, column):
    """The filter the user passes, and what it means: a function of all rows of a node in order."""
    if isinstance(f, dict) and "fn" in f:
        if f["fn"] == "even":
            def fn(v):
                return isinstance(v, int) and v % 2 == 0
            return fn, fn
        if f["fn"] == "low":
            cut = sorted(x for x in column if not isinstance(x, str))
            cut = cut[len(cut) // 2] if cut else 0

            def fn(v):
                return not isinstance(v, str) and v <= cut
            return fn, fn

        class Stateful(object):
            """True where the value differs from the one before"""
            def __init__(self):
                self.last = None

            def __call__(self, v):
                r, self.last = v != self.last, v
                return bool(r)
        return Stateful, Stateful
    vals = sorted(set(column), key=repr)
    if isinstance(f, dict):
        picked = [vals[i % len(vals)] for i in f["pick"]] if vals else [0]
        return (picked if len(f["pick"]) > 1 else picked[0]), (lambda v: any(v == p for p in picked))
    return f, (lambda v: v == f)


AGG = {None: None, "cumsum": lambda s: s.cumsum(), "scale": lambda s: s * 2, "sum": lambda s: s.sum(),
       "max": lambda s: s.max(), "kw": lambda s, factor: s * factor}


def guarded(line, f):
    li = sched.LineInterrupt(core.REPO + "/trappy", line, KeyboardInterrupt) if line else None
    try:
        if li:
            with li:
                return ("ok", f()), li.fired
        return ("ok", f()), False
    except (Exception, KeyboardInterrupt) as e:
        from matplotlib import pyplot as plt
        plt.close("all")
        return ("exc", e), bool(li and li.fired)


def ask(ctx, line, f, what):
    got, fired = guarded(line, f)
    if fired:
        ctx.fault("interrupt@line")
        ctx.check(got[0] == "ok" or isinstance(got[1], KeyboardInterrupt), "interrupt",
                  lambda: "%s raises %r instead of what interrupted it" % (what, got[1]))
        if got[0] == "exc":
            got, _ = guarded(0, f)
    return got


def close(a, b):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


# ------------------------------------------------------------------ aggregations
def run_agg(case, ctx):
    from trappy.stats.Aggregator import MultiTriggerAggregator
    from trappy.stats.Topology import Topology
    from trappy.stats.Trigger import Trigger
    m = hist.Machine(ctx)
    paths = [m.put("trace", case["world"])] + ([m.put("other", case["other"])] if case["other"] else [])
    for c in m.classes:
        c.disable_cache = True
    traces = [ops.load(case["spec"], p) for p in paths]
    trig, model = [], []
    for t in case["triggers"]:
        tr = traces[t["trace"] % len(traces)]
        df = getattr(tr, t["event"]).data_frame
        recs = list(zip(df.index.tolist(), df.to_dict("records")))
        pv = PIVOT[t["event"]]
        user, means = {}, {}
        value = t["value"]
        if isinstance(value, str) and any(isinstance(r.get(value), str) for _, r in recs):
            value = 1
        for c, f in t["filters"].items():
            if c != "nosuch" and recs and c not in recs[0][1]:
                continue
            u, g = make_filter(f, [r[c] for _, r in recs] if c != "nosuch" else [])
            user[c], means[c] = u, (g, isinstance(f, dict) and f.get("fn") == "stateful")
        trig.append((tr, t, user, value, pv))
        model.append((recs, value, pv, means))
    stateful = any(s for _, _, _, ms in model for _, s in ms.values())

    def build():
        ts = [Trigger(tr, getattr(tr, t["event"]), dict((c, u() if isinstance(u, type) else copy.copy(u)) for c, u in user.items()),
                      value, pv) for tr, t, user, value, pv in trig]
        groups = copy.deepcopy(case["groups"])
        topo = Topology(clusters=groups) if groups else Topology()
        if not case["late"]:
            for name, gs in case["extra"]:
                topo.add_to_level(name, copy.deepcopy(gs))
        agg = MultiTriggerAggregator(ts[0] if case["single"] and len(ts) == 1 else ts, topo, aggfunc=AGG[case["agg"]])
        if case["late"]:
            for name, gs in case["extra"]:
                topo.add_to_level(name, copy.deepcopy(gs))
        return agg, topo, groups
    built, _ = guarded(0, build)
    refusable = any(not recs for recs, _, _, _ in model)
    if built[0] == "exc":
        ctx.check(refusable, "raises", lambda: "the aggregator cannot be made: %r" % built[1])
        return
    agg, topo, groups = built[1]
    levels, nodes = {}, set(n for g in case["groups"] for n in g)
    if case["groups"]:
        levels["cluster"] = copy.deepcopy(case["groups"])
    extra_nodes = set()
    for name, gs in case["extra"]:
        levels.setdefault(name, [])
        levels[name] = levels[name] + copy.deepcopy(gs)
        extra_nodes |= set(n for g in gs for n in g)
    if case["groups"]:
        levels["cpu"] = [[n] for n in nodes]
    nodes |= extra_nodes
    ctx.check(len(topo.flatten()) == len(nodes) and set(topo.flatten()) == nodes, "topology",
              lambda: "nodes are %s, not %s" % (topo.flatten(), nodes))
    index = sorted(set(t for recs, _, _, _ in model for t, _ in recs))
    base = {}
    # a filter that remembers is asked node by node
    model = [(recs, value, pv, dict((c, (g() if st else g)) for c, (g, st) in means.items())) for recs, value, pv, means in model]
    for n in topo.flatten():
        s = dict.fromkeys(index, 0.0)
        for recs, value, pv, fs in model:
            for t, r in recs:
                if r[pv] != n:
                    continue
                ok = True
                for c, f in fs.items():
                    if c != "nosuch" and not f(r[c]):
                        ok = False
                if ok:
                    s[t] = float(r[value] if isinstance(value, str) else value)
        base[n] = [s[t] for t in index]
    for qi, q in enumerate(case["asked"]):
        lv = q["level"]
        kw = {"factor": q["factor"]} if case["agg"] == "kw" else {}
        what = "aggregate(%r) %s (question %d)" % (lv, kw, qi + 1)
        got = ask(ctx, 0 if stateful else q["line"], lambda: agg.aggregate(level=lv, **kw), what)
        if lv != "all" and lv not in levels:
            ctx.check(got[0] == "exc", "no-level", lambda: "%s: there is no such level, and it gives %s" % (what, got[1]))
            continue
        if got[0] == "exc":
            ctx.check(refusable or not nodes, "raises", lambda: "%s raises %r" % (what, got[1]))
            ctx.stat("refused")
            continue
        want = [sorted(nodes, key=repr)] if lv == "all" else levels[lv]
        res = got[1]
        shown = topo.get_level(lv)
        ctx.check([sorted(g, key=repr) for g in shown] == [sorted(g, key=repr) for g in want] if lv in ("all", "cluster", "mine", "pairs")
                  else sorted([list(g) for g in shown], key=repr) == sorted(want, key=repr), "topology",
                  lambda: "level %s is %s, was made of %s" % (lv, shown, want))
        ctx.check(len(res) == len(shown), "groups", lambda: "%s gives %d results for %d groups" % (what, len(res), len(shown)))
        if lv != "all":
            ctx.check(topo.level_span(lv) == len(want) and topo.has_level(lv), "topology", lambda: "span of %s" % lv)
            for k, g in enumerate(shown):
                ctx.check(topo.get_node(lv, k) == g and topo.get_level(lv)[topo.get_index(lv, g)] == g, "topology",
                          lambda: "group %d of %s" % (k, lv))
        for g, r in zip(shown, res):
            e = [reduced(case["agg"], base[n], q["factor"]) for n in g]
            if isinstance(e[0], list):
                e = [sum(x) for x in zip(*e)]
                have = r.tolist() if hasattr(r, "tolist") else r
                ctx.check(hasattr(r, "index") and r.index.tolist() == index, "stamps", lambda: "%s: stamps of %s are %s, not %s"
                          % (what, g, getattr(r, "index", []), index))
                for t, x, y in zip(index, have, e):
                    ctx.check(close(x, y), "count", lambda: "%s: group %s at %r is %r, recorded %r" % (what, g, t, x, y))
            else:
                e = sum(e)
                ctx.check(not hasattr(r, "index") and close(r, e), "count", lambda: "%s: group %s is %r, recorded %r" % (what, g, r, e))
            if any(x for n in g for x in base[n]):
                ctx.nontrivial = True
        ctx.log("aggregate", what, ops.digest(A.canon(res)))
        ctx.covered("agg", sorted(set(str(type(f)) + str(f)[:6] for t in case["triggers"] for f in t["filters"].values())), lv,
                    case["agg"], case["single"], len(traces), min(qi, 2), refusable)
        ctx.stat("aggregated")
    ctx.check(groups == case["groups"], "arguments", lambda: "the user's clusters became %s" % groups)
    ctx.sim_ns = W.span_ns(case["world"])


def reduced(agg, s, factor):
    if agg == "cumsum":
        out, x = [], 0.0
        for v in s:
            x += v
            out.append(x)
        return out
    if agg in ("scale", "kw"):
        f = 2 if agg == "scale" else factor
        return [v * f for v in s]
    if agg == "sum":
        return float(sum(s))
    if agg == "max":
        return max(s) if s else float("nan")
    return list(s)


# ------------------------------------------------------------------ correlations
def recorded(case, which):
    """The world of machine 0 or 1: anchors before and after that qualify for nothing."""
    beh = case["second"] if which and case["second"] is not None else case["behaviour"]
    shift = case["start"] + (case["delay"] if which else 0)
    ev = [[s + shift, c, v] for s, c, v in beh]
    if case["closed"]:
        # a CPU that is back at nothing when the behaviour ends
        last = ev[-1][0]
        ev += [[last + 1 + c, c, 3] for c in range(4)]
    # the recording of a behaviour of its own may begin with it
    slots = ([] if case["second"] is not None and case["sudden"][which] else
             [[ev[0][0] - 1 - case["lead"] * (1 + which), 0, 9]]) + ev + [[ev[-1][0] + 1 + case["tail"], 0, 9]]
    items = [["e", s * DELTA + (6000 * which if k == 0 else 12000), c, "bash", 11, "user",
              ["evt_alpha", [["cpu", str(c)], ["load", str(v)], ["name", "x"], ["util", "1"]]]] for k, (s, c, v) in enumerate(slots)]
    return {"fmt": "us", "ncpu": 4, "items": items, "kinds": ["evt_alpha"], "head": ["version = 6", "cpus=4"], "users": [], "nl": True}


def slots_of(w):
    return [(it[1], int(it[6][1][0][1]), int(it[6][1][1][1])) for it in w["items"]]


def sampled(case, w, t0, n, values):
    """{cpu: values on the uniform grid from t0}, NaN before the machine's first event"""
    ev = slots_of(w)
    out = {}
    for c in range(4):
        s, run, now = [], 0.0, 0.0
        steps = []
        for t, cc, v in ev:
            x = float(values[0] if v == 1 else values[1] if v in (2, 3) else 0) if cc == c else 0.0
            if case["closed"] and v == 3 and cc == c:
                x = 0.0
            run += x
            steps.append((t, run if case["agg"] == "cumsum" else 2 * x if case["agg"] == "scale" else 3 * x if case["agg"] == "kw" else x))
        k, now = 0, float("nan")
        for j in range(n):
            while k < len(steps) and steps[k][0] <= t0 + j * DELTA:
                now = steps[k][1]
                k += 1
            s.append(now)
        out[c] = s
    return out


def nz(v):
    return v == v and v != 0


def shifted(x, y, sh):
    nan = float("nan")
    if sh > 0:
        y = ([nan] * sh + y)[:len(y)]
    elif sh < 0:
        x = ([nan] * -sh + x)[:len(x)]
    return x, y


def pearson(x, y):
    p = [(a, b) for a, b in zip(x, y) if a == a and b == b]
    if len(p) < 2:
        return float("nan")
    n = float(len(p))
    mx, my = sum(a for a, _ in p) / n, sum(b for _, b in p) / n
    sx, sy = sum((a - mx) ** 2 for a, _ in p), sum((b - my) ** 2 for _, b in p)
    if sx < 1e-12 or sy < 1e-12:
        return float("nan")
    return sum((a - mx) * (b - my) for a, b in p) / math.sqrt(sx * sy)


def overlap(x, y):
    return float(sum(a * b for a, b in zip(x, y) if a == a and b == b))


def run_corr(case, ctx):
    from trappy.stats.Aggregator import MultiTriggerAggregator
    from trappy.stats.Correlator import Correlator
    from trappy.stats.Topology import Topology
    from trappy.stats.Trigger import Trigger
    m = hist.Machine(ctx)
    for c in m.classes:
        c.disable_cache = True
    ws = [recorded(case, k) for k in (0, 1)]
    spec = {"tracer": "FTrace", "scope": "custom", "normalize_time": False, "events": ["evt_alpha"]}
    v = case["values"]
    nodes = sorted(set(n for g in case["groups"] for n in g))

    def make(k):
        trace = ops.load(spec, m.put("t%d" % k, ws[k]))
        ts = [Trigger(trace, trace.evt_alpha, {"load": 1}, v[0], "cpu"),
              Trigger(trace, trace.evt_alpha, {"load": 2}, v[1], "cpu")]
        return MultiTriggerAggregator(ts, Topology(clusters=copy.deepcopy(case["groups"])), aggfunc=AGG[case["agg"]])
    aggs = [make(0), make(1)]
    t0 = min(w["items"][0][1] for w in ws)
    t1 = max(w["items"][-1][1] for w in ws)
    n = -(-(t1 - t0) // DELTA)
    grids = []
    for w in ws:
        # the events that close the behaviour (load 3) qualify for nothing
        g = sampled(case, dict(w, items=w["items"]), t0, n, [v[0], v[1]])
        grids.append(g)

    def group(g, k):
        return [sum(x) for x in zip(*[grids[k][c] for c in g])]
    corr = overlap if case["corrfunc"] else pearson
    x, y = group(nodes, 0), group(nodes, 1)
    px, py = [i for i, a in enumerate(x) if nz(a)], [i for i, a in enumerate(y) if nz(a)]
    if px and py:
        fs, bs = px[0] - py[0], px[-1] - py[-1]
    else:
        fs = bs = 0
    fc, bc = corr(*shifted(x, y, fs)), corr(*shifted(x, y, bs))
    if (fc != fc) != (bc != bc):
        ctx.stat("one end says nothing")
    fc, bc = 0 if fc != fc else fc, 0 if bc != bc else bc
    if fs != bs and abs(fc - bc) < 1e-9 * max(1, abs(fc)):
        ctx.stat("either alignment")
        shifts = [fs, bs]
    else:
        shifts = [fs if fc >= bc else bs]
    kw = {"corrfunc": lambda p, q: float((p * q).dropna().sum())} if case["corrfunc"] else {}
    if case["agg"] == "kw":
        kw["factor"] = 3
    made = ask(ctx, 0, lambda: Correlator(aggs[0], aggs[1], **kw), "Correlator")
    ctx.check(made[0] == "ok", "raises", lambda: "the correlator cannot be made: %r" % made[1])
    c = made[1]
    copy_of = case["second"] is None
    for q in case["asked"]:
        lv = q["level"]
        gs = [nodes] if lv == "all" else case["groups"] if lv == "cluster" else [[x] for x in nodes]
        what = "correlate(%r)" % lv
        got = ask(ctx, q["line"], lambda: c.correlate(lv), what)
        wanted = []
        for sh in shifts:
            out, ws_ = [], []
            for g in gs:
                a, b = shifted(group(g, 0), group(g, 1), sh)
                out.append(corr(a, b))
                ws_.append(sum(map(nz, a)) + sum(map(nz, b)))
            tot = sum(w * r for w, r in zip(ws_, out) if r == r) / float(sum(ws_)) if sum(ws_) else None
            wanted.append((out, tot))
        if any(t is None for _, t in wanted):
            ctx.stat("nothing to correlate")
            continue
        ctx.check(got[0] == "ok", "raises", lambda: "%s raises %r" % (what, got[1]))
        out, tot = got[1]
        ok = any(len(o) == len(out) and all(near(a, b) for a, b in zip(out, o)) and near(tot, t) for o, t in wanted)
        ctx.check(ok, "correlation", lambda: "%s gives %s total %r, the recordings %s (shift %s)" % (what, out, tot, wanted, shifts))
        if copy_of and not case["corrfunc"]:
            for g, r in zip(gs, out):
                ctx.check(r != r or near(r, 1), "copy", lambda: "%s: group %s of a copy delayed by %d correlates %r with it (shift %s)"
                          % (what, g, case["delay"], r, shifts))
            ctx.stat("copies")
        ctx.nontrivial = True
        ctx.log("correlate", lv, [repr(round(float(a), 6)) for a in out])
        ctx.covered("corr", lv, case["agg"], case["corrfunc"], copy_of, case["delay"] > 0, case["lead"] > 0, case["closed"])
    if case["plot"]:
        lv = case["asked"][0]["level"]
        gs = [nodes] if lv == "all" else case["groups"] if lv == "cluster" else [[x] for x in nodes]
        got = ask(ctx, 0, lambda: c.plot(lv, per_line=case["per_line"]), "plot(%r)" % lv)
        ctx.check(got[0] == "ok", "raises", lambda: "plot(%r) raises %r" % (lv, got[1]))
        from matplotlib import pyplot as plt
        axes = [ax for f in map(plt.figure, plt.get_fignums()) for ax in f.axes]
        ctx.check(len(axes) == len(gs), "plot", lambda: "%d axes for %d groups" % (len(axes), len(gs)))
        for g, ax in zip(gs, axes):
            have = [[float(v) for v in l.get_ydata()] for l in ax.lines]
            ok = any(len(have) == 2 and same(have[0], a) and same(have[1], b)
                     for a, b in [shifted(group(g, 0), group(g, 1), sh) for sh in shifts])
            ctx.check(ok, "plot", lambda: "the axis of %s does not show the aligned series" % g)
        plt.close("all")
        ctx.stat("plots")
    ctx.sim_ns = t1 - t0


def near(a, b):
    a, b = float(a), float(b)
    return (a != a and b != b) or abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))


def same(x, y):
    return len(x) == len(y) and all(near(a, b) for a, b in zip(x, y))


def run(case, ctx):
    (run_corr if case["kind"] == "corr" else run_agg)(case, ctx)

"""C13: analysis objects answer by what they are asked, not by what happened to them before."""
import bisect
import copy
import math

from dst import analyses as A, core, hist, ops, scene, sched, world as W

ID = "C13"
LEVEL = "exploration"
QUICK, THOROUGH = 1800, 30000
SHRINK = ("items", "objects", "calls", "triggers", "signals")
SIMPLIFY = {"norm": [False], "line": [0], "boom": [0], "spoil": [False], "fill": [False], "concat": [False],
            "permute": [False]}
RULE = ("A case is the trace of a simulated phone and 1-3 long-lived objects of an analysis session (expression "
        "parser, trigger aggregator, correlator, trigger, static and interactive plots, event plots) that are asked 2-7 times "
        "in a seeded order. Functions of the user raise, the user interrupts at a line of trappy and asks again, "
        "and edits what was returned. Every answer must equal that of an object to which nothing of this "
        "happened and, for all but the parser (which aligns its data on what it was asked before, by design), that of "
        "a brand-new object; what a parser or trigger says about a signal must be what was traced. "
        "Non-trivial: two calls on one object completed, one after a fault, an edit or another call.")
MEASURE = "(object, call, fault, calls before it) combinations"
REAL = ["trappy.stats, the plotters", "pandas, numpy, matplotlib (Agg), pyparsing"]
STUB = ["the user", "uuid and clock", "IPython display without a front end"]
ASSUME = ["an object is used by one thread at a time"]


DEBUG = False


def setup():
    A.warm()


def g_calls(rng, calls):
    for c in calls:
        r = rng.random()
        c["line"] = int(2 ** rng.uniform(0, 10)) if r < .25 else 0
        c["boom"] = rng.choice([1, 2, 3, 6]) if .25 <= r < .45 else 0
        c["spoil"] = rng.random() < .3
    return calls


def g_object(rng, kinds):
    n = rng.randrange(2, 7)
    r = rng.random()
    sk = [k for k in kinds if k in A.COLS]
    if r < .4:
        o = {"obj": "parser", "a": dict(A.g_parser(rng, kinds), boom=0)}
        pool = o["a"].pop("exprs") + [rng.choice(A.EXPRS).format(*(A._signals(rng, kinds, 1) + A._signals(rng, kinds, 1)))
                                      for _ in range(2)]
        pool += ["%s:%s" % (k, rng.choice(A.COLS[k])) for k in rng.sample(sk, min(2, len(sk)))]
        # the same column of two events
        cols = {}
        for k in sk:
            for c in A.COLS[k]:
                cols.setdefault(c, []).append(k)
        both = [c for c in sorted(cols) if len(cols[c]) > 1]
        if both and rng.random() < .5:
            c = rng.choice(both)
            pool += ["%s:%s" % (k, c) for k in cols[c][:2]]
            pool.append("%s:%s - %s:%s" % (cols[c][0], c, cols[c][1], c))
        o["calls"] = [{"do": rng.choice(["solve"] * 5 + ["ref", "inspect"]), "expr": rng.choice(pool)} for _ in range(n)]
    elif r < .8 and A.needs_pivot(kinds):
        a = dict(A.g_trigger(rng, kinds), boom=0)
        a.pop("levels")
        what = rng.choice(["aggregator", "aggregator", "correlator", "trigger"])
        if what == "correlator" and a["agg"] == "sum":
            a["agg"] = None
        o = {"obj": what, "a": a}
        o["calls"] = [{"do": rng.choice(["all", "cluster", "cpu"])} for _ in range(n)]
    elif r < .92:
        what = rng.choice(["static", "iplot"])
        a = A.g_static(rng, kinds)
        if what == "iplot":
            a = dict(a, permute=False, group=rng.choice([None, "g1"]))
        a.pop("twice")
        o = {"obj": what, "a": a, "calls": [{"do": rng.choice(["view", "view", "savefig"])} for _ in range(min(n, 3))]}
        if what == "iplot":
            for c in o["calls"]:
                c["do"] = "view"
    else:
        o = {"obj": "eventplot", "a": {"lanes": rng.choice([None, ["a", "b"]])},
             "calls": [{"do": rng.choice(["html", "html", "new"])} for _ in range(n)]}
    g_calls(rng, o["calls"])
    return o


def gen(rng, i, tier):
    w = scene.gen_scene(rng)
    kinds = list(w["kinds"])
    spec = {"tracer": "FTrace", "scope": "custom", "normalize_time": rng.random() < .6,
            "events": sorted(set(kinds + ["devfreq_in_power", "devfreq_out_power"]))}
    return {"world": w, "spec": spec, "objects": [g_object(rng, kinds) for _ in range(rng.choice([1, 1, 2, 3]))]}


class Session(object):
    """One object of the session, and the user's functions it calls."""

    def __init__(self, o, trace, ctx, n):
        self.o, self.trace, self.n = o, trace, n
        self.dir = ctx.dir
        self.env = A.Env(ctx.dir, n)
        self.left = 0
        self.obj = None

    def hit(self):
        if self.left:
            self.left -= 1
            if not self.left:
                raise A.Boom()

    def build(self):
        a = copy.deepcopy(self.o["a"])
        what, env, t = self.o["obj"], self.env, self.trace
        if what == "parser":
            from trappy.stats.grammar import Parser

            def my_func(s):
                self.hit()
                return s * 3
            kw = {"fill": a["fill"]}
            if a["window"] is not None:
                kw["window"] = tuple(a["window"])
            if a["filters"]:
                kw["filters"] = a["filters"]
            return Parser(t, pvars={"my_func": my_func, "LIMIT": 7}, **kw)
        if what == "aggregator":
            return A.aggregator(t, a, env, self.hit)
        if what == "trigger":
            return A.triggers(t, a, env, self.hit)
        if what == "correlator":
            from trappy.stats.Correlator import Correlator
            x = A.aggregator(t, a, env, self.hit)
            y = A.aggregator(t, dict(a, triggers=a["triggers"][::-1]), env, self.hit)

            def corr(p, q):
                self.hit()
                return float((p.fillna(0) * q.fillna(0)).sum())
            return Correlator(x, y, corrfunc=corr)
        if what == "static":
            import trappy
            kw = A._plot_kwargs(a, env)
            kw["style"] = a["style"]
            if a["cls"] == "LinePlot":
                kw["fill"], kw["scatter"] = a["fill"], a["scatter"]
            return getattr(trappy, a["cls"])(t, signals=a["signals"], **kw)
        if what == "iplot":
            from trappy.plotter.ILinePlot import ILinePlot
            kw = A._plot_kwargs(a, env)
            kw["permute"] = False
            if a["group"]:
                kw["sync_zoom"], kw["group"] = True, a["group"]
            return ILinePlot(t, signals=a["signals"], **kw)
        if what == "eventplot":
            from trappy.plotter.EventPlot import EventPlot
            lanes = a["lanes"]
            data = {"x": [[0.0, 1.0, lanes[0] if lanes else 0], [2.0, 2.5, lanes[1] if lanes else 1]],
                    "y": [[.5, 2.0, lanes[0] if lanes else 0]], "idle": []}
            env["data"] = data
            return EventPlot(data, ["x", "y"], (0.0, 2.5), num_lanes=2, lanes=lanes)
        raise KeyError(what)

    def call(self, c):
        if self.obj is None or c["do"] == "new":
            self.obj = self.build()
        x, do = self.obj, c["do"]
        what = self.o["obj"]
        if what == "parser":
            if do == "inspect":
                return x.inspect(signals_of(c["expr"])[0])
            r = x.solve(c["expr"])
            if do == "ref" and getattr(r, "ndim", 0) == 2 and all(str(d) == "bool" for d in r.dtypes) \
                    and r.shape[1] == 1:
                return x.ref(r.iloc[:, 0])
            return r
        if what == "aggregator":
            return x.aggregate(level=do)
        if what == "correlator":
            return x.correlate(do)
        if what == "trigger":
            return [t.generate(g[0]) for t in x for g in A.nodes_of(self.o["a"])]
        if what == "static":
            if do == "savefig":
                x.savefig("%s/fig%s.png" % (self.dir, self.n))
                A.figures()
                return A.describe([A.figure_of(x)])
            x.view(test=self.o["a"]["style"])
            return A.figures()
        if what == "iplot":
            x.view(test=True)
            return A.html(A.page_of(x))
        return A.html(x.html())


def attempt(s, c, boom=0, line=0):
    """-> ((kind, canonical), value, fault fired)"""
    s.left = boom
    li = sched.LineInterrupt(core.REPO + "/trappy", line, KeyboardInterrupt) if line else None
    try:
        if li:
            with li:
                v = s.call(c)
        else:
            v = s.call(c)
        out = ("ok", A.canon(v)), v
    except (Exception, KeyboardInterrupt) as e:
        out = ("exc", type(e).__name__), e
        from matplotlib import pyplot as plt
        plt.close("all")
    fired = bool(li and li.fired) or bool(boom and not s.left)
    s.left = 0
    return out[0], out[1], fired


def signals_of(expr):
    return [w for w in expr.replace("(", " ").replace(")", " ").split() if ":" in w]


def plain(expr):
    return signals_of(expr) == [expr]


def last_values(trace, a, sig):
    """What was traced: {pivot: (stamps, values)} of a signal, with the window and the filters of the parser."""
    ev, col = sig.split(":")
    cls = trace.class_definitions[ev]
    df = getattr(trace, cls.name).data_frame
    out = {}
    lo, hi = (a["window"] or [0, None])
    pivot = getattr(cls, "pivot", None)
    recs = df.to_dict("records")
    for t, r in zip(df.index.tolist(), recs):
        if t < lo or (hi is not None and t > hi):
            continue
        if any(k in r and r[k] not in (v if isinstance(v, list) else [v]) for k, v in a["filters"].items()):
            continue
        p = out.setdefault(r[pivot] if pivot else None, ([], []))
        p[0].append(t)
        p[1].append(r[col])
    return out


def is_nan(v):
    return isinstance(v, float) and math.isnan(v)


def check_signal(ctx, s, sig, got, before):
    """A signal solved by a parser: its own values at its own stamps, and never another value than its last."""
    exp = last_values(s.trace, s.o["a"], sig)
    cols = list(got.columns)
    if len(exp) > 1 or list(exp) != [None]:
        ctx.check(set(map(str, cols)) == set(map(str, exp)), "signal",
                  lambda: "%s has pivots %s, traced %s, after %s" % (sig, cols, sorted(map(str, exp)), before))
    for j, c in enumerate(cols):
        ts, vs = exp[c] if c in exp else list(exp.values())[0]
        idx, col = got.index.tolist(), got.iloc[:, j].tolist()
        ctx.check(set(ts) <= set(idx), "signal", lambda: "%s lacks stamps of its own, after %s" % (sig, before))
        for t, v in zip(idx, col):
            k = bisect.bisect_right(ts, t) - 1
            own = k >= 0 and ts[k] == t
            if own:
                ctx.check(v == vs[k], "signal", lambda: "%s[%s] at %r is %r, traced %r, after %s"
                          % (sig, c, t, v, vs[k], before))
            elif k >= 0:
                ctx.check(is_nan(v) or v == vs[k], "signal", lambda: "%s[%s] at %r is %r, the last value is %r, after %s"
                          % (sig, c, t, v, vs[k], before))
            else:
                ctx.check(is_nan(v), "signal", lambda: "%s[%s] at %r is %r before its first event, after %s"
                          % (sig, c, t, v, before))


def check_trigger(ctx, s, got):
    """What a trigger generates: its value, or the column it names, at the qualifying events."""
    it = iter(got)
    for t in s.o["a"]["triggers"]:
        df = getattr(s.trace, t["event"]).data_frame
        recs = list(zip(df.index.tolist(), df.to_dict("records")))
        for g in A.nodes_of(s.o["a"]):
            series = next(it)
            exp = []
            for ts, r in recs:
                ok = r[t["pivot"]] == g[0]
                for k, f in t["filters"].items():
                    v = r[k]
                    ok = ok and ((v % 2 == 0 if isinstance(v, int) else bool(v)) if f == "fn" else v == f)
                if ok:
                    exp.append([ts, r[t["value"]] if isinstance(t["value"], str) else t["value"]])
            have = [[x, y] for x, y in zip(series.index.tolist(), series.tolist())]
            ctx.check(have == exp, "trigger", lambda: "trigger %s at %s gives %s, traced %s" % (t, g[0], have, exp))


def run(case, ctx):
    m = hist.Machine(ctx)
    path = m.put("trace", case["world"])
    for c in m.classes:
        c.disable_cache = True
    spec = case["spec"]
    trace = ops.load(spec, path)
    clean_trace = ops.load(spec, path)
    sessions = [(Session(o, trace, ctx, "s%d" % i), Session(o, clean_trace, ctx, "c%d" % i))
                for i, o in enumerate(case["objects"])]
    todo = [(i, j) for i, o in enumerate(case["objects"]) for j in range(len(o["calls"]))]
    # objects take turns
    todo.sort(key=lambda x: (x[1], x[0]))
    done = {}
    for i, j in todo:
        o = case["objects"][i]
        c = o["calls"][j]
        s, clean = sessions[i]
        before = done.setdefault(i, [])
        what = "%s.%s" % (o["obj"], c.get("expr", c["do"]))
        fault = None
        ref, refv, _ = attempt(clean, c)
        if c["boom"] or c["line"]:
            got, v, fired = attempt(s, c, c["boom"], c["line"])
            if fired and got[0] == "exc":
                fault = "boom" if c["boom"] else "interrupt"
                ctx.fault("user-function-raises" if c["boom"] else "interrupt@line")
                ctx.check(got[1] in ("Boom", "KeyboardInterrupt") or got == ref, "fault-hidden",
                          lambda: "%s raises %s instead of what interrupted it" % (what, got[1]))
                got, v, _ = attempt(s, c)
        else:
            got, v, _ = attempt(s, c)
        d = ops.diff(list(got), list(ref))
        ctx.check(not d, "differs", lambda: "%s after %s and %s gives something else than without the faults and "
                  "edits: %s %s" % (what, before, fault, d, v if got[0] == "exc" else ""))
        if o["obj"] != "parser":
            new = Session(o, clean_trace, ctx, "n%d.%d" % (i, j))
            first, nv, _ = attempt(new, c)
            d = ops.diff(list(got), list(first))
            ctx.check(not d, "not-the-first", lambda: "%s after %s gives something else than the first time: %s %s"
                      % (what, before, d, v if got[0] == "exc" else ""))
        if got[0] == "ok":
            if o["obj"] == "parser" and c["do"] == "solve" and plain(c["expr"]):
                check_signal(ctx, s, c["expr"], v, before)
            if o["obj"] == "trigger":
                check_trigger(ctx, s, v)
            DEBUG and ctx.stat("OK %s" % o["obj"])
            if before or fault:
                ctx.nontrivial = True
        else:
            ctx.stat("refused: %s %s" % (o["obj"], got[1]))
            if DEBUG:
                import traceback
                tb = traceback.extract_tb(v.__traceback__)
                ctx.stat("%s %s | %s | %s" % (o["obj"], [f"{f.filename[-22:]}:{f.lineno}" for f in tb if "/trappy/" in f.filename][-1:], what[:90], repr(v)[:150]))
            # legal use of a trigger, and it raised
            ctx.check(o["obj"] != "trigger" or any(getattr(trace, t["event"]).data_frame.empty
                                                   for t in o["a"]["triggers"]), "trigger", lambda: "%s raises %s %s" % (what, got[1], v))
        bad = s.env.disturbed()
        ctx.check(not bad, "arguments", lambda: "%s changes the user's %s" % (what, bad))
        ctx.covered(o["obj"], c["do"], fault, got[0], len(before), bool(before) and before[-1] == what)
        ctx.log("call", i, what, fault, got[0], ops.digest(list(got)))
        before.append(what)
        ctx.stat("calls")
        if c["spoil"] and got[0] == "ok":
            ctx.fault("caller-edits-result")
            A.spoil(v)
    ctx.sim_ns = W.span_ns(case["world"])

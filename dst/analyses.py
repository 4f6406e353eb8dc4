"""The analyses trappy offers, as operations on a loaded trace.

Every operation is JSON: {"op": name, "a": arguments}.  execute() builds the
user's objects (dicts, lists, frames, functions) afresh from the arguments,
runs the analysis, and hands back what it returned and whether the user's own
objects were left alone.
"""
import copy
import hashlib
import os

from dst import ops, scene, seams

COLS = {
    "thermal": ["temp", "id"], "thermal_governor": ["req_power0", "delta_temperature", "thermal_zone_id"],
    "pid_controller": ["output", "p", "i"], "cpu_in_power": ["load0", "freq", "power"],
    "cpu_out_power": ["freq", "power"], "devfreq_in_power": ["freq", "load"],
    "devfreq_out_power": ["freq", "power"], "cpu_frequency": ["frequency", "cpu"],
    "cpu_idle": ["state", "cpu_id"], "sched_wakeup": ["pid", "target_cpu"],
    "sched_switch": ["next_pid", "prev_pid"], "evt_alpha": ["load", "util", "cpu"],
}
PIVOTS = {"evt_alpha": "cpu", "cpu_frequency": "cpu", "thermal": "id", "cpu_in_power": "cpus",
          "cpu_out_power": "cpus", "cpu_idle": "cpu_id", "sched_wakeup": "target_cpu", "sched_switch": "__cpu"}


class Boom(Exception):
    """What the user's own function raises."""


# ------------------------------------------------------------------ results
def canon(v, depth=0):
    import numpy as np
    import pandas as pd
    if isinstance(v, pd.DataFrame):
        return ["frame", ops.table(v), str(v.columns.names)]
    if isinstance(v, pd.Series):
        return ["series", str(v.name), str(v.dtype), str(v.index.name),
                [ops.cell(x) for x in v.index.tolist()], [ops.cell(x) for x in v.tolist()]]
    if isinstance(v, np.ndarray):
        return ["array", str(v.dtype), [ops.cell(x) for x in v.ravel().tolist()]]
    if isinstance(v, dict):
        return ["dict", sorted((str(k), canon(x, depth + 1)) for k, x in v.items())]
    if isinstance(v, (list, tuple)):
        return ["list", [canon(x, depth + 1) for x in v]]
    if isinstance(v, (set, frozenset)):
        return ["set", sorted(str(canon(x)) for x in v)]
    if isinstance(v, type):
        return ["class", v.__name__]
    return ops.cell(v) if not isinstance(v, bytes) else ["bytes", hashlib.md5(v).hexdigest()]


def figures():
    """Everything drawn by pyplot, as data; closes the figures."""
    from matplotlib import pyplot as plt
    out = describe([plt.figure(num) for num in plt.get_fignums()])
    plt.close("all")
    return out


def _held(obj, pred):
    """The one thing an object holds that looks as asked, whatever it calls it."""
    return [v for _, v in sorted(vars(obj).items()) if pred(v)][-1]


def page_of(plot):
    """The markup of a line plot that was viewed."""
    return _held(plot, lambda v: callable(getattr(v, "html", None)) and not hasattr(v, "columns")).html()


def figure_of(plot):
    """The matplotlib figure of a static plot that was viewed."""
    return _held(plot, lambda v: hasattr(v, "savefig") and hasattr(v, "axes"))


def describe(figs):
    out = []
    for f in figs:
        fig = {"size": [float(x) for x in f.get_size_inches()],
               "sup": f._suptitle.get_text() if f._suptitle else "",
               "legends": [[t.get_text() for t in l.get_texts()] for l in f.legends], "axes": []}
        for ax in f.axes:
            leg = ax.get_legend()
            fig["axes"].append({
                "title": ax.get_title(), "x": ax.get_xlabel(), "y": ax.get_ylabel(),
                "xlim": [repr(float(x)) for x in ax.get_xlim()],
                "ylim": [repr(float(x)) for x in ax.get_ylim()],
                "legend": [t.get_text() for t in leg.get_texts()] if leg else [],
                "lines": [[l.get_label(), canon(list(l.get_xdata())), canon(list(l.get_ydata())),
                           str(l.get_color()), l.get_linestyle(), str(l.get_marker())] for l in ax.lines],
                "bars": [[repr(float(p.get_x())), repr(float(p.get_y())), repr(float(p.get_width())),
                          repr(float(p.get_height()))] for p in ax.patches if hasattr(p, "get_width")],
                "fills": [canon(c.get_paths()[0].vertices) for c in ax.collections if c.get_paths()]})
        out.append(fig)
    return out


def html(text):
    """The page without the names that are unique on purpose."""
    import re
    names = {}

    def sub(m):
        return names.setdefault(m.group(0), "fig#%d" % len(names))
    text = re.sub(r"fig_[0-9a-f]{32}", sub, text)
    text = re.sub(r'"syncGroup": "[^"]*"', '"syncGroup": "*"', text)
    return text


def rc_digest():
    import matplotlib
    from trappy.plotter import AttrConf
    rc = repr(sorted((k, repr(v)) for k, v in matplotlib.rcParams.items() if k != "interactive"))
    conf = repr(sorted((k, repr(v)) for k, v in vars(AttrConf).items()
                       if k.isupper() and k != "MPL_STYLE"))
    return hashlib.md5((rc + conf).encode()).hexdigest()


# ------------------------------------------------------------------ user side
def raising(n, fn):
    """fn, that raises at its n-th call (0: never)."""
    c = [0]

    def f(*a, **k):
        c[0] += 1
        if c[0] == n:
            raise Boom()
        return fn(*a, **k)
    return f


def user_frame(a):
    """A time series or table of the user's own, with duplicate stamps."""
    import pandas as pd
    idx = pd.Index(a["index"], dtype=float, name="Time")
    if a["series"]:
        return pd.Series(list(range(len(idx))), index=idx, name="s", dtype=float)
    d = {"v": list(range(len(idx))), "w": [(i * 7) % 5 for i in range(len(idx))],
         "cpu": [i % 2 for i in range(len(idx))]}
    if a["line"]:
        d["__line"] = a["lines"]
    return pd.DataFrame(d, index=idx)


def g_frame(rng):
    t, idx = rng.choice([0.0, 1.0, 1234.5]), []
    for _ in range(rng.choice([1, 3, 6, 12])):
        if rng.random() < .5 or not idx:
            t += rng.choice([.000001, .000002, .000003, .5, 1.0])
        idx.append(round(t, 7))
    n = len(idx)
    if rng.random() < .25:
        idx = idx[:1] * n
    line = rng.random() < .5
    return {"index": idx, "series": rng.random() < .4, "line": line,
            "lines": rng.sample(range(n), n) if rng.random() < .5 else list(range(n))}


# ------------------------------------------------------------------ operations
OPS = {}


def op(name, gen, pyplot=False, needs=()):
    def deco(fn):
        OPS[name] = {"gen": gen, "run": fn, "pyplot": pyplot, "needs": needs}
        return fn
    return deco


def g_none(rng, kinds):
    return {}


def _signals(rng, kinds, n=2):
    ks = [k for k in kinds if k in COLS]
    out = []
    for _ in range(rng.randrange(1, n + 1)):
        k = rng.choice(ks)
        s = "%s:%s" % (k, rng.choice(COLS[k]))
        if s not in out:
            out.append(s)
    return out


def _window(rng):
    return rng.choice([None, None, [0, None], [.001, None], [0, .5], [.1, .9], [0, 0], [-1, 0]])


def g_filters(rng):
    return rng.choice([{}, {}, {"cpu": [0, 1]}, {"id": [0]}, {"__pid": [11, 12, 13]},
                       {"cpus": ["0000000f"]}, {"__cpu": [0, 1], "cpu": [0, 1, 2]}])


@op("meta", g_none)
def _meta(trace, a, env):
    return [trace.get_duration(), sorted(trace.get_filters()), sorted(trace.get_filters("sched")),
            trace.basetime, trace.endtime]


@op("callbacks", lambda rng, kinds: {"events": rng.sample(kinds, rng.randrange(1, min(4, len(kinds)) + 1)),
                                     "boom": rng.choice([0, 0, 0, 3])})
def _callbacks(trace, a, env):
    got = []
    hit = raising(a["boom"], lambda: None)

    def make(e):
        def cb(row):
            hit()
            got.append([e, dict(row)])
            for k in list(row):
                row[k] = "spoilt"
        return cb
    trace.apply_callbacks(dict((e, make(e)) for e in a["events"]))
    return got


def _map(env):
    m = dict(scene.MAP_LABEL)
    env["map_label"] = m
    return m


@op("load_data", g_none, needs=("cpu_in_power",))
def _load_data(trace, a, env):
    return trace.cpu_in_power.get_load_data(_map(env))


@op("norm_load", g_none, needs=("cpu_in_power",))
def _norm_load(trace, a, env):
    return trace.cpu_in_power.get_normalized_load_data(_map(env))


@op("in_freqs", g_none, needs=("cpu_in_power",))
def _in_freqs(trace, a, env):
    return trace.cpu_in_power.get_all_freqs(_map(env))


@op("out_freqs", g_none, needs=("cpu_out_power",))
def _out_freqs(trace, a, env):
    return trace.cpu_out_power.get_all_freqs(_map(env))


@op("dev_freqs", lambda rng, kinds: {"which": rng.choice(["devfreq_in_power", "devfreq_out_power"])})
def _dev_freqs(trace, a, env):
    return getattr(trace, a["which"]).get_all_freqs()


@op("all_freqs", g_none, needs=("cpu_in_power", "cpu_out_power"))
def _all_freqs(trace, a, env):
    return trace.get_all_freqs_data(_map(env))


@op("write_csv", lambda rng, kinds: {"event": rng.choice(kinds)})
def _write_csv(trace, a, env):
    p = "%s/csv%s" % (env["dir"], env["n"])
    getattr(trace, a["event"]).write_csv(p)
    data = ops.get(p)
    seams._real["unlink"](p)
    return data


EXPRS = ["{0}", "{0} * 2", "{0} + {1}", "numpy.mean({0})", "{0} > 10", "({0} > 10) & ({1} > 10)",
         "numpy.max({0}) - numpy.min({1})", "my_func({0})", "{0} - {1} * LIMIT", "-1 * {0}",
         "my_func({0} + {1})"]


def g_parser(rng, kinds):
    return {"exprs": [rng.choice(EXPRS).format(*(_signals(rng, kinds, 1) + _signals(rng, kinds, 1)))
                      for _ in range(rng.choice([1, 1, 2, 3]))],
            "window": _window(rng), "filters": g_filters(rng), "fill": rng.random() < .6,
            "ref": rng.random() < .2, "inspect": rng.random() < .2, "boom": rng.choice([0, 0, 0, 1, 2])}


def parser(trace, a, env):
    from trappy.stats.grammar import Parser
    fn = raising(a["boom"], lambda s: s * 3)
    pv = {"my_func": lambda s: fn(s), "LIMIT": 7}
    fl = copy.deepcopy(a["filters"])
    env["pvars"] = dict((k, v) for k, v in pv.items() if k == "LIMIT")
    env["filters"] = fl
    kw = {"fill": a["fill"]}
    if a["window"] is not None:
        kw["window"] = tuple(a["window"])
    if fl:
        kw["filters"] = fl
    return Parser(trace, pvars=pv, **kw)


@op("parser", g_parser)
def _parser(trace, a, env):
    p = parser(trace, a, env)
    out = []
    for e in a["exprs"]:
        r = p.solve(e)
        out.append(r)
    if a["ref"] and hasattr(out[-1], "dtype") and str(getattr(out[-1], "dtype", "")) == "bool":
        out.append(p.ref(out[-1]))
    if a["inspect"]:
        e = a["exprs"][0]
        sig = [x for x in e.replace("(", " ").replace(")", " ").split() if ":" in x][0]
        out.append(p.inspect(sig))
    return out


def g_trigger(rng, kinds):
    ks = [k for k in kinds if k in PIVOTS]
    trig = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        k = rng.choice(ks)
        trig.append({"event": k, "pivot": PIVOTS[k], "value": rng.choice([1, -1, 2.5, COLS[k][0]]),
                     "filters": rng.choice([{}, {}, {COLS[k][0]: "fn"}, {COLS[k][0]: 5},
                                            {"__pid": "fn", COLS[k][0]: "fn"}])})
    return {"triggers": trig, "levels": rng.sample(["all", "cluster", "cpu"], rng.randrange(1, 4)),
            "agg": rng.choice([None, None, "same", "sum", "cumsum", "scale"]), "boom": rng.choice([0, 0, 0, 2, 5]),
            "nodes": rng.choice([[[0, 1], [2, 3]], [[0], [1, 2]], [[1, 0]]])}


def needs_pivot(kinds):
    return [k for k in kinds if k in PIVOTS]


def nodes_of(a):
    masks = sorted(scene.MAP_LABEL)
    if a["triggers"] and all(t["pivot"] == "cpus" for t in a["triggers"]):
        return [[masks[0]], [masks[1]]]
    return a["nodes"]


def triggers(trace, a, env, hit):
    from trappy.stats.Trigger import Trigger
    out, fs = [], []
    for t in a["triggers"]:
        def pred(v):
            hit()
            return v % 2 == 0 if isinstance(v, int) else bool(v)
        f = dict((k, pred if v == "fn" else v) for k, v in t["filters"].items())
        fs.append(dict((k, v) for k, v in f.items() if not callable(v)))
        out.append(Trigger(trace, getattr(trace, t["event"]), f, t["value"], t["pivot"]))
    env["filters"] = fs
    return out


def aggregator(trace, a, env, hit, which=None):
    from trappy.stats.Aggregator import MultiTriggerAggregator
    from trappy.stats.Topology import Topology
    clusters = copy.deepcopy(nodes_of(a))
    env["clusters"] = clusters
    fn = {None: None, "same": lambda s: s, "sum": lambda s: s.sum(), "cumsum": lambda s: s.cumsum(),
          "scale": lambda s: s * 2}[a["agg"]]
    if fn is not None:
        inner = fn

        def fn(s):
            hit()
            return inner(s)
    return MultiTriggerAggregator(triggers(trace, a, env, hit), Topology(clusters=clusters), aggfunc=fn)


@op("trigger", g_trigger)
def _trigger(trace, a, env):
    hit = raising(a["boom"], lambda: None)
    out = []
    for t in triggers(trace, a, env, hit):
        for grp in nodes_of(a):
            out.append(t.generate(grp[0]))
    return out


@op("aggregate", g_trigger)
def _aggregate(trace, a, env):
    agg = aggregator(trace, a, env, raising(a["boom"], lambda: None))
    return [agg.aggregate(level=l) for l in a["levels"][:1]]


@op("correlate", g_trigger)
def _correlate(trace, a, env):
    from trappy.stats.Correlator import Correlator
    b = dict(a, agg=None if a["agg"] == "sum" else a["agg"])
    hit = raising(a["boom"], lambda: None)
    x = aggregator(trace, b, env, hit)
    y = aggregator(trace, dict(b, triggers=b["triggers"][::-1]), env, hit)
    c = Correlator(x, y, corrfunc=lambda p, q: float((p.fillna(0) * q.fillna(0)).sum()))
    return c.correlate(a["levels"][0])


# -- drawing
def g_static(rng, kinds):
    sig = _signals(rng, kinds, 3)
    piv = rng.choice([None, None, "cpu", "id", "cpus", "__cpu"])
    return {"cls": rng.choice(["LinePlot", "LinePlot", "BarPlot"]), "signals": sig, "pivot": piv,
            "filters": g_filters(rng), "concat": rng.random() < .25, "permute": rng.random() < .2,
            "fill": rng.random() < .3, "scatter": rng.random() < .3, "per_line": rng.choice([1, 2, 3]),
            "title": rng.choice([None, "My plot"]), "xlim": rng.choice([None, None, [0, 1]]),
            "twice": rng.random() < .3, "frame": None, "style": rng.random() < .8,
            "map_label": rng.random() < .3}


def _plot_kwargs(a, env):
    kw = {"filters": copy.deepcopy(a["filters"]), "concat": a["concat"], "permute": a["permute"],
          "per_line": a["per_line"]}
    if a["pivot"]:
        kw["pivot"] = a["pivot"]
    if a["title"]:
        kw["title"] = a["title"]
    if a["xlim"]:
        kw["xlim"] = list(a["xlim"])
    if a["map_label"]:
        kw["map_label"] = {0: "LITTLE", 1: "big", "0000000f": "A7"}
    return kw


@op("static", g_static, pyplot=True)
def _static(trace, a, env):
    import trappy
    kw = _plot_kwargs(a, env)
    kw["style"] = a["style"]
    if a["cls"] == "LinePlot":
        kw["fill"], kw["scatter"] = a["fill"], a["scatter"]
    sig = list(a["signals"])
    env["kw"], env["signals"] = kw, sig
    cls = getattr(trappy, a["cls"])
    p = cls(trace, signals=sig, **kw)
    for _ in range(2 if a["twice"] else 1):
        p.view(test=a["style"])
    return figures()


@op("static_frame", lambda rng, kinds: dict(g_static(rng, kinds), frame=dict(g_frame(rng), series=False),
                                            pivot=rng.choice([None, "cpu"]), filters=rng.choice([{}, {"w": [1, 2]}])),
    pyplot=True)
def _static_frame(trace, a, env):
    import trappy
    kw = _plot_kwargs(a, env)
    df = user_frame(a["frame"])
    env["kw"], env["frame"] = kw, df
    cls = getattr(trappy, a["cls"])
    p = cls(df, column=["v"], **kw)
    p.view(test=True)
    return figures()


@op("iplot", lambda rng, kinds: dict(g_static(rng, kinds), signals=_signals(rng, kinds, 1),
                                     group=rng.choice([None, "g1"])))
def _iplot(trace, a, env):
    from trappy.plotter.ILinePlot import ILinePlot
    kw = _plot_kwargs(a, env)
    kw["permute"] = False
    if not a["pivot"]:
        kw["concat"] = False
    if a["group"]:
        kw["sync_zoom"], kw["group"] = True, a["group"]
    sig = list(a["signals"])
    env["kw"], env["signals"] = kw, sig
    p = ILinePlot(trace, signals=sig, **kw)
    p.view(test=True)
    return html(page_of(p))


@op("residency", lambda rng, kinds: {"exec": rng.choice([None, None, ["bash", "adbd"], "sshd"]),
                                     "pids": rng.choice([None, None, [11, 12], 13])},
    needs=("sched_switch",))
def _residency(trace, a, env):
    from trappy.plotter import EventPlot, Utils
    ex, pids = copy.deepcopy(a["exec"]), copy.deepcopy(a["pids"])
    env["exec"], env["pids"] = ex, pids
    data, procs, domain = Utils.get_trace_event_data(trace, ex, pids)
    before = copy.deepcopy(dict(data))
    lanes = 1 + max([int(i[2]) for v in data.values() for i in v] or [0])
    p = EventPlot.EventPlot(data, procs, domain, lane_prefix="CPU: ", num_lanes=lanes)
    env["residency"] = data == before
    return [data, procs, domain, html(p.html())]


def _therm(name, gen, fn, needs=()):
    OPS[name] = {"gen": gen, "run": fn, "pyplot": True, "needs": needs}


def _pu(fname, *args, **needs):
    def run(trace, a, env):
        from trappy import plot_utils
        rest = []
        for x in args:
            if x == "map":
                rest.append(_map(env))
            elif x == "order":
                env["order"] = ["GPU", "A15", "A7"]
                rest.append(env["order"])
        kw = {}
        if "kw" in needs:
            kw = {"width": 7, "height": 3}
        getattr(plot_utils, fname)([trace], *rest, **kw)
        return figures()
    return run


_therm("pu_temperature", g_none, _pu("plot_temperature", kw=1), ("thermal", "thermal_governor"))
_therm("pu_load", g_none, _pu("plot_load", "map", kw=1), ("cpu_in_power",))
_therm("pu_allfreqs", g_none, _pu("plot_allfreqs", "map", kw=1), ("cpu_in_power", "cpu_out_power"))
_therm("pu_controller", g_none, _pu("plot_controller", kw=1), ("pid_controller",))
_therm("pu_input", g_none, lambda t, a, e: _thermal_in(t, a, e), ("thermal_governor",))
_therm("pu_output", g_none, _pu("plot_output_power", "order"), ("thermal_governor",))
_therm("pu_hists", g_none, _pu("plot_freq_hists", "map"), ("cpu_in_power", "cpu_out_power"))
_therm("pu_temp_hist", g_none, _pu("plot_temperature_hist"), ("thermal",))


def _thermal_in(trace, a, env):
    env["order"] = ["GPU", "A15", "A7"]
    trace.thermal_governor.plot_input_power(env["order"], title="in")
    env["weights"] = [("GPU", 1024), ("A15", 512), ("A7", 100)]
    trace.thermal_governor.plot_weighted_input_power(env["weights"], title="w")
    return figures()


_therm("t_allfreqs", g_none, lambda t, a, e: (t.plot_allfreqs(_map(e)), figures())[1],
       ("cpu_in_power", "cpu_out_power"))
_therm("t_load", g_none, lambda t, a, e: (t.plot_load(_map(e), title="x"),
                                          t.plot_normalized_load(_map(e)), figures())[2], ("cpu_in_power",))


@op("dups", lambda rng, kinds: dict(g_frame(rng), delta=rng.choice([None, None, .001])))
def _dups(trace, a, env):
    from trappy.utils import handle_duplicate_index
    df = user_frame(a)
    env["frame"] = df
    return handle_duplicate_index(df) if a["delta"] is None else handle_duplicate_index(df, a["delta"])


@op("constraint", lambda rng, kinds: dict(g_static(rng, kinds)))
def _constraint(trace, a, env):
    from trappy.plotter.Constraint import ConstraintManager
    from trappy.plotter import AttrConf
    fl, cols, evs = copy.deepcopy(a["filters"]), [], []
    for s in a["signals"]:
        e, c = s.split(":")
        cols.append(c)
        evs.append(trace.class_definitions[e])
    env["kw"], env["cols"] = fl, cols
    cm = ConstraintManager(trace, cols, evs, a["pivot"] or AttrConf.PIVOT, fl,
                           window=tuple(a["xlim"]) if a["xlim"] else None)
    return [cm.constraint_labels(), [c.result for c in cm], list(cm.generate_pivots()[0])]


# ------------------------------------------------------------------ running one
def gen_op(rng, kinds, only=None, pyplot=True):
    names = [n for n in sorted(OPS) if (only is None or n in only) and (pyplot or not OPS[n]["pyplot"])
             and all(k in kinds for k in OPS[n]["needs"])]
    if not needs_pivot(kinds):
        names = [n for n in names if n not in ("trigger", "aggregate", "correlate")]
    n = rng.choice(names)
    return {"op": n, "a": OPS[n]["gen"](rng, kinds)}


def freeze(v):
    """A digest of a user's object, types included."""
    return ops.digest(canon(v))


class Env(dict):
    """Holds the user's own objects; remembers what they were when given away."""

    def __init__(self, directory, n=0):
        dict.__init__(self, dir=directory, n=n)
        self.was = {}

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        self.was[k] = freeze(v)

    def disturbed(self):
        return [k for k in sorted(self.was) if freeze(self[k]) != self.was[k]]


def execute(o, trace, env):
    """("ok", canonical, value) or ("exc", type name, text); interrupts pass."""
    spec = OPS[o["op"]]
    a = copy.deepcopy(o["a"])
    try:
        v = spec["run"](trace, a, env)
    except (Exception, KeyboardInterrupt) as e:
        if spec["pyplot"]:
            from matplotlib import pyplot as plt
            plt.close("all")
        return ("exc", type(e).__name__, "%s" % e)
    return ("ok", canon(v), v)


def warm():
    """Import and initialise what the analyses load lazily."""
    import io
    import IPython.display  # noqa
    from matplotlib import pyplot as plt
    import trappy.plotter.ILinePlot, trappy.plotter.EventPlot  # noqa
    import trappy.plot_utils  # noqa
    f, ax = plt.subplots()
    ax.plot([1, 2], [1, 2], label="x")
    ax.legend()
    f.savefig(io.BytesIO())
    plt.close("all")


def spoil(v):
    """The user edits what an analysis returned, in place."""
    import numpy as np
    import pandas as pd
    if isinstance(v, (list, tuple)):
        for x in v:
            spoil(x)
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v.clear()
    elif isinstance(v, pd.DataFrame):
        for i, c in enumerate(v.columns):
            if v.dtypes.iloc[i].kind in "if" and len(v):
                col = v.iloc[:, i].values
                if col.flags.writeable:
                    col[:] = -7
                v.iloc[:, i] = -7
        v.drop(v.index[:1], inplace=True)
    elif isinstance(v, pd.Series):
        if len(v) and v.dtype.kind in "if":
            if v.values.flags.writeable:
                v.values[:] = -7
            v.iloc[:] = -7
    elif isinstance(v, np.ndarray) and v.size and v.flags.writeable and v.dtype.kind in "if":
        v[:] = 0
    if isinstance(v, list):
        del v[:]

"""C17: an interactive figure shows the given data, all of it, and no other figure's."""
import builtins
import copy
import importlib
import json
import math
import re
import weakref
from html.parser import HTMLParser

from dst import core, ops, sched

ID = "C17"
LEVEL = "exploration"
QUICK, THOROUGH = 6000, 100000
SHRINK = ("threads", "todo", "pre", "src", "sigs", "events", "sources", "filters", "data", "rows")
SIMPLIFY = {"line": [0], "views": [1], "drawstyle": [None], "xlim": [None], "ylim": [None], "fill": [False],
            "title": [None], "group": [None], "sync": [False], "per_line": [2], "scatter": [False], "keep": [True],
            "tight": [False], "concat": [False], "permute": [False], "pivot": [None], "restart": [False],
            "summary": [True], "stride": [False], "alpha": [None], "lines": [False], "label": [None]}
RULE = ("A case is a session in a notebook: one to three threads make and view 1-6 interactive figures (line plots of data "
        "frames and traces with several series, pivots, filters, windows, styles; event plots), keep or drop them "
        "(the simulated allocator then gives their addresses to others), are interrupted at a line, refused for too "
        "many points, meet a style sheet that cannot be read, restart the kernel. Names and labels are any "
        "text a task may be called. A browser's view of the page is compared with a model: the samples of "
        "each line at their stamps, in order; between them nothing off the line; titles, options, lanes; ids and "
        "sync groups of a figure are no other's. Non-trivial: a figure was compared after another one was made.")
MEASURE = "(plot kind, layout of series, style options, disturbance, outcome) combinations"
REAL = ["trappy.ILinePlot, ILinePlotGen, EventPlot, Constraint, utils, BareTrace", "pandas, json", "real threads"]
STUB = ["scheduler", "object addresses as hash() and id() give them", "uuid", "IPython display", "the browser: html.parser"]
ASSUME = ["no two pivots have the same label"]

NAMES = ["", "", "juno", "juno", "tc2", "Trace 0", "</script>", "a:b", "<!--x", u"\u00fcn\u00ef", 'q"uote', "it's", "0", "\\n"]
COLS = ["a", "b", "load"]


def gen_table(rng):
    n = rng.choice([1, 2, 3, 5, 9, 20])
    t, now, tie = [], rng.choice([0, 1, 10, 5000]) * 1000000, rng.choice([0, 0, .2, .7])
    for _ in range(n):
        if rng.random() >= tie or not t:
            now += rng.choice([1, 1, 2, 1000, 500000, 1000000])
        t.append(now)
    rows = [[x, rng.choice([rng.randrange(100), rng.randrange(10**6)]), rng.choice([.1, -1.5, 1e-9, 3.0]) *
             rng.randrange(50), rng.randrange(5), 0, rng.choice([0, 1])] for x in t]
    return {"rows": rows}


def gen_line(rng, sources):
    kind = rng.choice(["df", "trace"])
    src = [i for i, s in enumerate(sources) if s["kind"] == kind]
    if not src:
        kind = "trace" if kind == "df" else "df"
        src = [i for i, s in enumerate(sources) if s["kind"] == kind]
    src = [rng.choice(src) for _ in range(rng.choice([1, 1, 2, 3]))]
    n = len(src) if len(src) > 1 and rng.random() < .3 else rng.choice([1, 1, 2, 3]) if len(src) == 1 else 1
    permute = kind == "trace" and rng.random() < .3
    ev = rng.choice(["evt", "evt_two"])
    sigs = [[rng.choice([ev, "evt", "evt_two"]), rng.choice(COLS)] for _ in range(n)]
    if rng.random() < .7:
        # the same signal twice is one line
        sigs = [s for i, s in enumerate(sigs) if s not in sigs[:i]]
        if len(src) > 1 and len(sigs) != len(src):
            sigs = sigs[:1]
    w = None
    if rng.random() < .35:
        r = [x[0] / 1e6 for s in src for x in sources[s]["tables"][0]["rows"]]
        a, b = sorted(rng.choice([rng.choice(r), rng.choice(r) + 1e-7, rng.uniform(min(r) - 2, max(r) + 2)])
                      for _ in range(2))
        w = [a, b]
    return {"kind": "line", "src": src, "sigs": sigs, "of": kind, "str": rng.random() < .5,
            "pivot": rng.choice([None, None, "p", "q"]),
            "filters": rng.choice([[], [], [["q", [0]]], [["p", [0, "big", "0xf", 7]]], [["q", [1]], ["c", [0, 1, 2]]]]),
            "concat": not permute and rng.random() < .3, "permute": permute,
            "drawstyle": rng.choice([None, None, "steps-post", "steps-post", "steps-pre", "steps-mid"]), "xlim": w,
            "ylim": rng.choice([None, None, [0, 10], [-1.5, 2]]), "fill": rng.random() < .2,
            "alpha": rng.choice([None, None, None, .4]), "scatter": rng.random() < .2,
            "title": rng.choice([None, None, "My plot", "a {} b"]), "group": rng.choice([None, None, None, "g1", "0"]),
            "sync": rng.random() < .5, "per_line": rng.choice([1, 2, 3]),
            "label": rng.choice([None, None, [[0, "zero"], [1, "one</script>"], ["big", "A15"]]]),
            "colors": rng.random() < .2, "tight": rng.random() < .15}


def gen_event(rng):
    names = rng.sample(["swapper", "task-1", "</script>", "<!--", "<script>", u"\u00fcn", 'q"', "back\\slash", "kworker/0:1",
                        "a'b", "</SCRIPT x", "0", "12"], rng.randrange(1, 5))
    lanes = rng.choice([None, None, ["cpu0", "cpu1", "GPU </script>"], ["x"], [10, 11]])
    nl = len(lanes) if lanes else rng.randrange(1, 5)
    data = []
    for n in names:
        evs, now = [], 0
        for _ in range(rng.choice([0, 1, 2, 6])):
            now += rng.choice([1, 1000, 333333])
            d = rng.choice([0, 1, 10, 70007])
            evs.append([now / 1e6, (now + d) / 1e6, rng.randrange(nl)])
            now += d
        data.append([n, evs])
    return {"kind": "event", "data": data, "lanes": lanes, "num": nl, "prefix": rng.choice([None, "CPU: ", "</"]),
            "summary": rng.random() < .7, "stride": rng.random() < .4,
            "colormap": rng.choice([None, None, dict((n, "#00ff00") for n in names)]),
            "css": rng.choice([None] * 5 + ["EIO", "EACCES", "mem"])}


def gen(rng, i, tier):
    sources = [{"kind": rng.choice(["df", "trace", "trace"]), "name": rng.choice(NAMES),
                "tables": [gen_table(rng), gen_table(rng)]} for _ in range(rng.randrange(1, 5))]
    nthr = rng.choice([1, 1, 1, 1, 2, 3])
    threads = []
    for k in range(nthr):
        todo = []
        for _ in range(rng.choice([1, 2, 3, 6]) if nthr == 1 else rng.choice([1, 2])):
            f = gen_line(rng, sources) if rng.random() < .75 else gen_event(rng)
            f.update(views=rng.choice([1, 1, 1, 2]), keep=rng.random() < .4, restart=nthr == 1 and rng.random() < .1,
                     line=int(2 ** rng.uniform(0, 9)) if nthr == 1 and rng.random() < .25 else 0)
            todo.append(f)
        threads.append({"todo": todo})
    kinds = rng.choice([[0, 1], [0, 1, 2, 10], ["0xf", "0x3f0"], ["big", "LITTLE"], [7]])
    for s in sources:
        for t in s["tables"]:
            for r in t["rows"]:
                r[4] = rng.choice(kinds)
    return {"sources": sources, "threads": threads, "lines": rng.random() < .8,
            "reuse": [rng.randrange(4) for _ in range(4)],
            "pre": sorted([rng.randrange(1, rng.choice([50, 500, 3000])), rng.randrange(3)]
                          for _ in range(rng.choice([1, 4, 12, 30]))) if nthr > 1 else []}


# ------------------------------------------------------------- the allocator
class Addresses(object):
    """hash() and id() of trappy's objects: addresses, given to others once free."""

    def __init__(self, choices, ctx):
        self.choices, self.n, self.free, self.live, self.next = choices, 0, [], {}, 0x7f0000001000
        self.ctx = ctx
        self.real_id, self.real_hash = id, hash

    def addr(self, o):
        rid = self.real_id(o)
        if rid not in self.live:
            if self.free:
                k = self.choices[self.n % len(self.choices)] if self.choices else 0
                self.n += 1
                a = self.free.pop(-1 - min(k, len(self.free) - 1))
                self.ctx.fault("address-reused")
            else:
                a = self.next
                self.next += 64
            self.live[rid] = a
            weakref.finalize(o, self.gone, rid)
        return self.live[rid]

    def gone(self, rid):
        self.free.append(self.live.pop(rid))

    def ours(self, o):
        t = type(o)
        return t.__module__.startswith("trappy") and not isinstance(o, type) and t.__hash__ is object.__hash__ and \
            getattr(t, "__weakrefoffset__", 0)

    def install(self):
        builtins.id = lambda o: self.addr(o) if self.ours(o) else self.real_id(o)
        builtins.hash = lambda o: self.addr(o) >> 4 if self.ours(o) else self.real_hash(o)


# ------------------------------------------------------------- the browser
class Browser(HTMLParser):
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.ids, self.scripts, self.cells, self.rows, self.cap = [], [], [], [], None
        self.inside = self.incap = False
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if "id" in a:
            self.ids.append(a["id"])
        if tag == "tr":
            self.rows.append(0)
        if tag == "div" and a.get("class") == "ilineplot":
            self.cells.append(a["id"])
            self.rows[-1] += 1
        if tag == "script" and "src" not in a:
            self.inside = True
            self.scripts.append("")
        self.incap = tag == "caption"

    def handle_endtag(self, tag):
        if tag == "script":
            self.inside = False
        self.incap = False

    def handle_data(self, data):
        if self.inside:
            self.scripts[-1] += data
        if self.incap:
            self.cap = (self.cap or "") + data


DECODE = json.JSONDecoder()


def decode(s, at):
    try:
        return DECODE.raw_decode(s, at)
    except ValueError:
        return None, at


VAR = re.compile(r"\s*var (\w+)_data = ")
CALL = re.compile(r"ILinePlot\.generate\((\w+)_data(, \[.*?\])?\);")
EVENT = re.compile(r"EventPlot\.generate\('(\w+)', '([^']*)', ")


def run(case, ctx):
    import pandas as pd
    import trappy
    from trappy.plotter import ILinePlotGen, EventPlot, ILinePlot, AttrConf
    fs = ctx.fs
    Addresses(case["reuse"], ctx).install()
    css = ctx.dir + "/package/plotter/css"
    import os
    os.makedirs(css)
    ops.put(css + "/EventPlot.css", ops.get(core.REPO + "/trappy/plotter/css/EventPlot.css"))
    pages = {}
    nextid = [0]

    def tables(s):
        out = []
        for t in s["tables"]:
            rows = t["rows"]
            d = {}
            for j, c in enumerate(["a", "b", "load", "p", "q"], 1):
                d[c] = [r[j] for r in rows]
            d["c"] = d.pop("load")
            d["load"] = d["c"]
            out.append(pd.DataFrame(d, index=pd.Index([r[0] / 1e6 for r in rows], name="Time"), columns=COLS +
                                    ["p", "q", "c"]))
        return out
    given, dfs = [], []
    for s in case["sources"]:
        ts = tables(s)
        dfs.append(ts)
        if s["kind"] == "df":
            given.append(ts[0])
        else:
            tr = trappy.BareTrace(name=s["name"])
            tr.add_parsed_event("evt", ts[0])
            tr.add_parsed_event("evt_two", ts[1])
            given.append(tr)
    before = [[ops.table(t) for t in ts] for ts in dfs]
    sch = sched.Scheduler(ctx, case["pre"], line_root=core.REPO + "/trappy"
                          if case["lines"] and len(case["threads"]) > 1 else None)
    shown = {}

    def display(h):
        shown.setdefault(sch.me(), []).append(h.data)

    def seams():
        from trappy.plotter import IPythonConf
        ILinePlotGen.display = EventPlot.display = display
        EventPlot.__file__ = ctx.dir + "/package/plotter/EventPlot.py"
        IPythonConf.iplot_install = lambda name: None
    seams()
    kept = []
    figs = []           # (what, ids, default sync group or None)
    problems = []
    compared = [0]
    serial = len(case["threads"]) == 1

    def bad(cls, msg):
        problems.append((cls, msg))

    def make(f):
        if f["kind"] == "event":
            kw = {}
            if f["prefix"] is not None:
                kw["lane_prefix"] = f["prefix"]
            data = {}
            for n, evs in f["data"]:
                data[n] = [[s, e, f["lanes"][l] if f["lanes"] else l] for s, e, l in evs]
            saved = copy.deepcopy(data)
            try:
                return trappy.EventPlot(data, list(data), [0, 2.5], num_lanes=0 if f["lanes"] else f["num"],
                                        lanes=f["lanes"], summary=f["summary"], stride=f["stride"],
                                        color_map=f["colormap"], **kw)
            finally:
                if data != saved:
                    bad("argument", "the data of an event plot was changed")
        kw = {"per_line": f["per_line"], "concat": f["concat"], "permute": f["permute"], "fill": f["fill"],
              "scatter": f["scatter"], "sync_zoom": f["sync"], "title": f["title"], "drawstyle": f["drawstyle"]}
        if f["pivot"]:
            kw["pivot"] = f["pivot"]
        if f["filters"]:
            kw["filters"] = dict((k, list(v)) for k, v in f["filters"])
        for k, n in (("xlim", "xlim"), ("ylim", "ylim"), ("alpha", "fill_alpha"), ("group", "group")):
            if f[k] is not None:
                kw[n] = tuple(f[k]) if isinstance(f[k], list) else f[k]
        if f["label"]:
            kw["map_label"] = dict(map(tuple, f["label"]))
        src = [given[i] for i in f["src"]]
        if len(src) == 1 and f["str"]:
            src = src[0]
        if f["of"] == "df":
            kw["column"] = [c for _, c in f["sigs"]]
            if len(kw["column"]) == 1 and f["str"]:
                kw["column"] = kw["column"][0]
        else:
            kw["signals"] = ["%s:%s" % (e, c) + (":%d,0x10,3" % j if f["colors"] else "")
                             for j, (e, c) in enumerate(f["sigs"])]
            if len(kw["signals"]) == 1 and f["str"]:
                kw["signals"] = kw["signals"][0]
        return trappy.ILinePlot(src, **kw)

    def view(f, p, tight=False):
        if f["kind"] == "event":
            p.view()
        elif tight:
            p.view(max_datapoints=0, test=True)
        else:
            p.view(test=True)

    def one(tid, f):
        if f["kind"] == "line" and not f["sigs"]:
            return
        what = "figure %d.%d (%s)" % (tid, nextid[0], f["kind"])
        nextid[0] += 1
        if f["restart"]:
            # a new kernel: the modules are loaded again, the notebook's output stays
            ctx.fault("kernel-restart")
            del kept[:]
            for m in (ILinePlotGen, ILinePlot, EventPlot):
                importlib.reload(m)
            trappy.ILinePlot, trappy.EventPlot = ILinePlot.ILinePlot, EventPlot.EventPlot
            seams()
        fired = []
        me = fs.current
        p = None
        if f.get("css"):
            me.arm([{"kind": f["css"], "op": "open_r" if f["css"] == "EACCES" else "read", "role": "package"}])
            me.fired = []
        if f["line"] and serial:
            li = sched.LineInterrupt(core.REPO + "/trappy", f["line"], KeyboardInterrupt)
            try:
                with li:
                    p = make(f)
                    view(f, p)
            except (Exception, KeyboardInterrupt) as e:
                if not li.fired and not me.fired and not legit(f, e):
                    raise
            if li.fired:
                ctx.fault("interrupt@line")
                fired.append("intr")
                shown.pop(sch.me(), None)
            elif shown.get(sch.me()):
                shown.pop(sch.me())
        if f.get("css") and serial and p is None:
            try:
                p = make(f)
                view(f, p)
            except Exception:
                if not me.fired:
                    raise
                fired.append("css")
            shown.pop(sch.me(), None)
        me.faults = []
        if p is None:
            try:
                p = make(f)
            except RuntimeError as e:
                if not legit(f, e):
                    raise
                # nothing to plot
                ctx.stat("refused")
                return
        me.faults = []
        if f["kind"] == "line" and f["tight"] and expected(f, case) and points(f, case):
            try:
                view(f, p, True)
                bad("too-big", "%s: more points than allowed were plotted" % what)
            except ValueError:
                ctx.stat("refused as too big")
            shown.pop(sch.me(), None)
        for v in range(f["views"]):
            try:
                view(f, p)
            except RuntimeError as e:
                if legit(f, e):
                    ctx.stat("refused")
                    return
                raise
            out = shown.pop(sch.me(), [])
            if len(out) != 1:
                bad("display", "%s: view %d displays %d times" % (what, v, len(out)))
                continue
            sch.point("displayed")
            check(f, out[0], what)
            ctx.stat("figures compared")
            compared[0] += 1
            ctx.log(what, v, ops.digest(re.sub("[0-9a-f]{32}", "", out[0])))
        ctx.covered(f["kind"], len(f.get("src", f.get("data"))), len(f.get("sigs", ())), f.get("pivot"), f.get("concat"),
                    f.get("permute"), f.get("drawstyle"), bool(f.get("xlim")), tuple(fired), f["views"], serial)
        if f["keep"]:
            kept.append(p)
        del p

    def legit(f, e):
        return f["kind"] == "line" and isinstance(e, RuntimeError) and not expected(f, case)

    def check(f, text, what):
        page = Browser(text)
        if len(set(page.ids)) != len(page.ids):
            bad("ids", "%s: an id is there twice: %s" % (what, page.ids))
        for w, ids, _ in figs:
            both = set(ids) & set(page.ids)
            if both:
                bad("ids", "%s and %s both have id %s" % (what, w, sorted(both)[0]))
        if f["kind"] == "event":
            figs.append((what, page.ids, None))
            return check_event(f, page, what)
        want = expected(f, case)
        data, order = {}, []
        for s in page.scripts:
            m = VAR.match(s)
            if m:
                v, end = decode(s, m.end())
                if v is None:
                    bad("script", "%s: the data of a plot breaks off: %r" % (what, s[-60:]))
                    return
                if s[end:].strip() != ";":
                    bad("script", "%s: %r after the data" % (what, s[end:][:60]))
                if v["name"] != m.group(1) or m.group(1) in data:
                    bad("script", "%s: data of %s is called %s" % (what, v["name"], m.group(1)))
                data[m.group(1)] = v
            for name, colors in CALL.findall(s):
                if name not in data:
                    bad("script", "%s: %s is drawn without data" % (what, name))
                order.append(name)
                wc = ["rgb(%d, 16, 3)" % j for j in range(len(f["sigs"]))] if f["colors"] and f["of"] == "trace" else None
                if (json.loads(colors[2:]) if colors else None) != wc:
                    bad("colors", "%s: colours are %s, asked for %s" % (what, colors, wc))
        if order != page.cells or sorted(order) != sorted(data):
            bad("script", "%s: cells %s, data %s, calls %s" % (what, page.cells, sorted(data), order))
            return
        if len(order) != len(want):
            bad("plots", "%s: %d plots instead of %d (%s)" % (what, len(order), len(want), [w[0] for w in want]))
            return
        if any(r > f["per_line"] for r in page.rows):
            bad("layout", "%s: rows of %s plots" % (what, page.rows))
        for c in page.cells:
            if c + "_legend" not in page.ids:
                bad("layout", "%s: no legend of %s" % (what, c))
        if (page.cap or None) != f["title"]:
            bad("title", "%s: title %r" % (what, page.cap))
        groups = set()
        for name, w in zip(order, want):
            v = data[name]
            groups.add(v["syncGroup"])
            opts = {"title": w[0], "step_plot": bool(f["drawstyle"]), "fill_graph": f["fill"] or f["alpha"] is not None,
                    "syncZoom": f["sync"], "drawPoints": f["scatter"], "valueRange": f["ylim"], "dateWindow": f["xlim"],
                    "fill_alpha": f["alpha"], "pointSize": 2, "strokeWidth": 0.0 if f["scatter"] else 1.0}
            for o in opts:
                if v.get(o) != opts[o]:
                    bad("option", "%s, plot %r: %s is %r, should be %r" % (what, w[0], o, v.get(o), opts[o]))
            p = compare(v["data"], w[1], f["drawstyle"])
            if p:
                bad("data", "%s, plot %r of %s: %s" % (what, w[0], json.dumps(f), p))
        if len(groups) != 1:
            bad("sync", "%s: its plots are of %d groups" % (what, len(groups)))
        g = groups.pop()
        if f["group"] is not None:
            if g != f["group"]:
                bad("sync", "%s: group %r, not %r" % (what, g, f["group"]))
        for w, _, h in figs:
            if h is not None and (h[0] == g) and (h[1] or f["group"] is None) and w != what:
                bad("sync", "%s and %s are in the same group %r that nobody asked for" % (what, w, g))
        figs.append((what, page.ids, (g, f["group"] is None)))

    def check_event(f, page, what):
        n = 0
        for s in page.scripts:
            m = EVENT.search(s)
            if not m:
                continue
            n += 1
            v, end = decode(s, m.end())
            if v is None:
                bad("script", "%s: the data of a plot breaks off: %r" % (what, s[-60:]))
                return
            if not s[end:].startswith(");"):
                bad("script", "%s: %r after the data" % (what, s[end:][:60]))
            if m.group(1) not in page.ids:
                bad("script", "%s: drawn into %s, which does not exist" % (what, m.group(1)))
            want = {}
            avg = []
            for name, evs in f["data"]:
                d = want.setdefault(name, {})
                for a, b, l in evs:
                    d.setdefault(str(l), []).append([a, b])
                if evs:
                    avg.append((sum(b - a for a, b, _ in evs) / (len(evs) + 1.), name))
            for o, x in (("data", want), ("xDomain", [0, 2.5]), ("showSummary", f["summary"]), ("stride", f["stride"]),
                         ("colorMap", f["colormap"]),
                         ("lanes", [{"id": j, "label": l} for j, l in enumerate(f["lanes"] or [
                             ("Lane: " if f["prefix"] is None else f["prefix"]) + str(j) for j in range(f["num"])])])):
                if v.get(o) != x:
                    bad("event-" + o, "%s: %s is %r, should be %r" % (what, o, v.get(o), x))
            keys = v["keys"]
            dur = dict((nm, a) for a, nm in avg)
            if sorted(keys) != sorted(k for k in dur if dur[k] > 0):
                bad("event-keys", "%s: keys %s of %s" % (what, keys, avg))
            elif any(dur[a] < dur[b] - 1e-12 for a, b in zip(keys, keys[1:])):
                bad("event-keys", "%s: keys %s not by duration %s" % (what, keys, avg))
        if n != 1:
            bad("script", "%s: drawn %d times" % (what, n))

    def body(tid, todo):
        def run_thread():
            for f in todo:
                one(tid, f)
                if problems and serial:
                    return
        return run_thread
    if serial:
        body(0, case["threads"][0]["todo"])()
    else:
        for tid, t in enumerate(case["threads"]):
            sch.spawn(body(tid, t["todo"]))
        fs.scheduler = sch
        sch.fs_steps = False
        out = sch.run()
        fs.scheduler = None
        for r in out:
            if r is not None and r[0] == "exc":
                raise r[1]
    for cls, msg in problems:
        ctx.violate(cls, msg)
    ctx.check([[ops.table(t) for t in ts] for ts in dfs] == before, "argument", "the plotted tables were changed")
    ctx.nontrivial = compared[0] > 1
    ctx.stat("switches", sch.switches)
    ctx.sim_ns = fs.clock_ns - 1500000000 * 10 ** 9


# ------------------------------------------------------------------ the model
def key(x):
    return x


def order(pivots):
    try:
        return sorted(pivots, key=int)
    except (ValueError, TypeError):
        try:
            return sorted(pivots, key=lambda x: int(x, 16))
        except (ValueError, TypeError):
            return sorted(pivots)


def series(f, case, src, ev, col):
    """{pivot: [(stamp, value)]} of one source's column."""
    rows = case["sources"][src]["tables"][1 if ev == "evt_two" and f["of"] == "trace" else 0]["rows"]
    j = {"a": 1, "b": 2, "load": 3, "c": 3, "p": 4, "q": 5}
    t = [r[0] / 1e6 for r in rows]
    lo, hi = -math.inf, math.inf
    if f["xlim"]:
        lo = max([x for x in t if x <= f["xlim"][0]], default=lo)
        hi = min([x for x in t if x >= f["xlim"][1]], default=hi)
    out = {}
    for x, r in zip(t, rows):
        if not lo <= x <= hi:
            continue
        if all(r[j[c]] in vals for c, vals in f["filters"]):
            out.setdefault(r[j[f["pivot"]]] if f["pivot"] else None, []).append((x, float(r[j[col]])))
    return out


def expected(f, case):
    """[(title, [(label, samples)])] for each plot of the figure."""
    src, sigs = f["src"], f["sigs"]
    n = max(len(src), len(sigs))
    labels = dict(map(tuple, f["label"])) if f["label"] else {}

    def name(i):
        if f["of"] == "df":
            return "DataFrame %d" % (i if len(src) == n else 0)
        nm = case["sources"][src[i % len(src)]]["name"]
        return nm if nm else "Trace %d" % (i if len(src) == n else 0)

    def label(i, s):
        return name(i) + ":" + (s[0] + ":" if f["of"] == "trace" else "") + s[1]

    def ptitle(p):
        return "%s: %s" % (f["pivot"], labels.get(p, p)) if f["pivot"] else ""
    out = []
    if f["permute"]:
        every = [(i, s, series(f, case, src[i], s[0], s[1])) for i in range(len(src)) for s in sigs]
        pivots = order(set(p for _, _, d in every for p in d))
        for i in range(len(src)):
            for p in pivots:
                lines, seen = [], set()
                for k, s, d in every:
                    if k == i and p in d and tuple(s) not in seen:
                        seen.add(tuple(s))
                        lines.append((s[0] + ":" + s[1], d[p]))
                out.append((case["sources"][src[i]]["name"], lines))
        return out
    cons = []
    for i in range(n):
        s = sigs[i % len(sigs)]
        cons.append((label(i, s), series(f, case, src[i % len(src)], s[0], s[1]), i if len(src) == n else 0))
    pivots = order(set(p for _, d, _ in cons for p in d))
    if f["concat"]:
        cols = ",".join(c for _, c in sigs)
        for l, d, _ in cons:
            out.append((l, [(ptitle(p) if f["pivot"] else cols, d[p]) for p in pivots if p in d]))
        return out if cons else []
    for p in pivots:
        lines, seen = [], set()
        for l, d, idx in cons:
            if p in d and (l, idx) not in seen:
                seen.add((l, idx))
                # traces of the same name have to be told apart somehow
                lines.append((l, d[p], len(set(x for k, _, x in cons if k == l)) > 1))
        out.append((ptitle(p), lines))
    return out


def points(f, case):
    return any(lines for _, lines in expected(f, case)[:1])


def compare(got, want, style):
    """What is wrong with the table of a plot, or None."""
    labels, rows = got["labels"], got["data"]
    if labels[:1] != ["index"] or len(labels) != len(want) + 1:
        return "lines %s instead of %s" % (labels, [w[0] for w in want])
    if len(set(labels)) != len(labels):
        return "two lines are called the same: %s" % labels
    for l, w, twice in zip(labels[1:], [x[0] for x in want], [len(x) > 2 and x[2] for x in want]):
        if l != w and not (twice and l.startswith(w)):
            return "line %r instead of %r" % (l, w)
    if any(len(r) != len(labels) for r in rows):
        return "rows of different lengths"
    xs = [r[0] for r in rows]
    if len(want) == 1:
        exact = [[t, v] for t, v in want[0][1]]
        return None if [[r[0], float(r[1])] for r in rows] == exact else \
            "points %s instead of %s" % (rows[:8], exact[:8])
    if any(not a <= b for a, b in zip(xs, xs[1:])):
        return "goes back in time: %s" % xs[:12]
    used = set()
    for c, (l, pts) in enumerate([x[:2] for x in want], 1):
        pos, k, at, zones = -1, 0, [], []
        for i, (t, v) in enumerate(pts):
            k = k + 1 if i and pts[i - 1][0] == t else 0
            if k:
                # set apart by at most a microsecond each; where exactly is free
                zones.append((t, t + (k + 1) * 1.1e-6))
            for pos in range(pos + 1, len(rows)):
                if rows[pos][0] > t + k * 1.1e-6:
                    pos = len(rows)
                    break
                if (rows[pos][0] == t if not k else rows[pos][0] > t) and rows[pos][c] == v:
                    break
            else:
                pos = len(rows)
            if pos >= len(rows):
                return "line %r misses its value %r at %r: %s" % (l, v, t, rows[:12])
            at.append(pos)
        used.update(at)
        mine = dict(zip(at, pts))
        for i, r in enumerate(rows):
            if i in mine:
                continue
            y = r[c]
            if any(a < r[0] <= b for a, b in zones):
                used.add(i)
                continue
            prev = [p for p in at if p < i]
            nxt = [p for p in at if p > i]
            nan = y is None or y != y
            if not prev:
                ok = nan or (style in ("steps-pre",) and y == rows[nxt[0]][c])
            elif not nxt:
                ok = nan or y == rows[prev[-1]][c]
            else:
                a, b = rows[prev[-1]], rows[nxt[0]]
                if style == "steps-post":
                    ok = y == a[c]
                elif style == "steps-pre":
                    ok = y == b[c]
                elif style:
                    ok = y in (a[c], b[c])
                else:
                    line = a[c] + (b[c] - a[c]) * (r[0] - a[0]) / (b[0] - a[0])
                    ok = abs(y - line) <= 1e-6 * (1 + abs(a[c]) + abs(b[c]))
                    if any(z[0] < x[0] <= z[1] for z in zones for x in (a, b)):
                        ok = min(a[c], b[c]) - 1e-6 <= y <= max(a[c], b[c]) + 1e-6
            if not ok:
                return "line %r is at %r at %r, between its samples: %s" % (l, y, r[0], rows[max(0, i - 3):i + 4])
    if len(used) != len(rows):
        i = min(set(range(len(rows))) - used)
        return "a point that no series has: %s" % rows[i]
    return None

"""C19: a static figure shows each series on the axis of its pivot or trace, under its own legend entry."""
import io
import os

from dst import analyses as A, core, ops, sched
from dst.props import c17

ID = "C19"
LEVEL = "exploration"
QUICK, THOROUGH = 900, 40000
SHRINK = ("figs", "src", "sigs", "sources", "filters", "rows", "saves")
SIMPLIFY = {"line": [0], "views": [1], "drawstyle": [None], "xlim": [None], "ylim": [None], "fill": [False],
            "title": [None], "per_line": [2], "scatter": [False], "concat": [False], "permute": [False], "pivot": [None],
            "label": [None], "stacked": [False], "style": [False], "marker": [None], "spacing": [None], "ncol": [None],
            "saveline": [0], "other": [False]}
RULE = ("A case is a session: 1-4 line or bar plots of data frames or traces, with several sources, signals, pivots that "
        "some sources lack, filters, concat or permute, any number of columns of axes; each is viewed once or twice, "
        "interrupted at a line, saved (before or after it was viewed) to a disk that fills up, fails or is interrupted at "
        "a line, and saved again. Compared with a model: number, order and place of the axes; the samples of each line "
        "or bars, in order; its colour and legend entry; titles, limits, stacking; a saved image that was not refused "
        "is byte for byte the image of the whole figure; arguments, other figures and matplotlib's settings stay as they "
        "were. Non-trivial: several axes or series were compared or a disturbance was met.")
MEASURE = "(plot kind, layout of series, style options, disturbance, outcome) combinations"
REAL = ["trappy.LinePlot, BarPlot, StaticPlot, PlotLayout, ColorMap, Constraint", "pandas, matplotlib (Agg), PIL"]
STUB = ["the disk the image is saved to", "the user's interrupts"]
ASSUME = ["no two pivots have the same label"]


def gen_fig(rng, sources):
    f = c17.gen_line(rng, sources)
    of = f["of"]
    f["kind"] = rng.choice(["line", "line", "bar"])
    events = ["evt", "evt_two"]
    n = len(f["sigs"])
    if of == "trace" and rng.random() < .5:
        f["permute"] = True
        n = rng.choice([1, 1, 2, 3])
        if len(f["src"]) > 1 and n > 1:
            n = len(f["src"])
    if f["permute"]:
        f["concat"] = rng.random() < .1
        sigs = [[rng.choice(events), rng.choice(c17.COLS)] for _ in range(n)]
        sigs = [s for i, s in enumerate(sigs) if s not in sigs[:i]]
        if len(f["src"]) > 1 and len(sigs) != len(f["src"]):
            sigs = sigs[:1]
        f["sigs"] = sigs
    elif rng.random() < .25:
        f["concat"] = True
    for k in ("group", "sync", "tight", "alpha"):
        f.pop(k)
    if f["kind"] == "bar":
        f.update(drawstyle=None, fill=False, scatter=False, xlim=None)
    if f["drawstyle"]:
        f["drawstyle"] = rng.choice(["steps-post", "steps-pre"])
        f["fill"] = False
    f.update(pivot=rng.choice([None, "p", "p", "q"]), stacked=rng.random() < .5, spacing=rng.choice([None, .5]),
             style=rng.random() < .7, per_line=rng.choice([1, 2, 2, 3, 4]), ncol=rng.choice([None, 1, 2]),
             marker=rng.choice([None, None, "x"]), views=rng.choice([0, 1, 1, 2]), other=rng.random() < .3,
             line=int(2 ** rng.uniform(3, 9)) if rng.random() < .25 else 0, saves=[], saveline=0)
    if rng.random() < .35:
        f["saves"] = [{"kind": rng.choice(["ENOSPC", "EIO", "EDQUOT", "intr", "short", "mem"]), "op": "write", "role": "out",
                       "nth": rng.choice([0, 0, 1, 2, 3, 6]), "frac": rng.choice([0, .3, .9])}
                      if rng.random() < .8 else
                      {"kind": rng.choice(["EACCES", "ENOSPC", "ENOENT"]), "op": "open_w", "role": "out", "nth": 0}
                      for _ in range(rng.choice([1, 1, 2, 3]))]
        f["saveline"] = int(2 ** rng.uniform(0, 7)) if rng.random() < .3 else 0
    return f


def gen(rng, i, tier):
    sources = [{"kind": rng.choice(["df", "trace", "trace"]), "name": rng.choice(["", "", "juno", "juno", "tc2", "a:b", "0"]),
                "tables": [c17.gen_table(rng), c17.gen_table(rng)]} for _ in range(rng.randrange(1, 4))]
    kinds = rng.choice([[0, 1], [0, 1, 2, 10], [0, 1, 2, 3, 4], ["0xf", "0x3f0"], ["big", "LITTLE"], [7]])
    for s in sources:
        for t in s["tables"]:
            some = rng.sample(kinds, rng.randrange(1, len(kinds) + 1))
            for r in t["rows"]:
                r[4] = rng.choice(some)
    return {"sources": sources, "figs": [gen_fig(rng, sources) for _ in range(rng.choice([1, 1, 2, 4]))]}


# ------------------------------------------------------------------ the model
def expected(f, case):
    """(axes, entries): [(title, [(entry, samples)])] and [legend label]."""
    src, sigs = f["src"], f["sigs"]
    g = dict(f, xlim=None)
    labels = dict(map(tuple, f["label"])) if f["label"] else {}

    def ptitle(p):
        return "%s: %s" % (f["pivot"], labels.get(p, p)) if f["pivot"] else ""
    n = max(len(src), len(sigs))
    if f["permute"]:
        cons = [(i, s, c17.series(g, case, src[i], s[0], s[1])) for i in range(len(src)) for s in sigs]
    else:
        cons = []
        for i in range(n):
            s = sigs[i % len(sigs)]
            k = i if len(src) == n else 0
            cons.append((k, s, c17.series(g, case, src[k], s[0], s[1])))

    def name(k):
        if f["of"] == "df":
            return "DataFrame %d" % k
        return case["sources"][src[k]]["name"] or "Trace %d" % k

    def label(k, s):
        return name(k) + ":" + (s[0] + ":" if f["of"] == "trace" else "") + s[1]
    pivots = c17.order(set(p for _, _, d in cons for p in d))
    axes, entries = [], []
    if f["concat"]:
        for k, s, d in cons:
            axes.append((label(k, s), [(j, d[p]) for j, p in enumerate(pivots) if p in d]))
        entries = [ptitle(p) if f["pivot"] else ",".join(c for _, c in sigs) for p in pivots]
    elif f["permute"]:
        for i in range(len(src)):
            for p in pivots:
                axes.append((name(i), [(sigs.index(s), d[p]) for k, s, d in cons if k == i and p in d]))
        entries = [s[0] + ":" + s[1] for s in sigs]
    else:
        for p in pivots:
            axes.append((ptitle(p), [(i, d[p]) for i, (_, _, d) in enumerate(cons) if p in d]))
        entries = [label(k, s) for k, s, _ in cons]
    return axes, entries


def run(case, ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import pandas as pd
    import trappy
    fs = ctx.fs
    os.makedirs(ctx.dir + "/out")
    given, dfs = [], []
    for s in case["sources"]:
        ts = []
        for t in s["tables"]:
            d = dict((c, [r[j] for r in t["rows"]]) for c, j in (("a", 1), ("b", 2), ("load", 3), ("p", 4), ("q", 5), ("c", 3)))
            ts.append(pd.DataFrame(d, index=pd.Index([r[0] / 1e6 for r in t["rows"]], name="Time")))
        dfs.append(ts)
        if s["kind"] == "df":
            given.append(ts[0])
        else:
            tr = trappy.BareTrace(name=s["name"])
            tr.add_parsed_event("evt", ts[0])
            tr.add_parsed_event("evt_two", ts[1])
            given.append(tr)
    before = [[ops.table(t) for t in ts] for ts in dfs]
    settings = dict(plt.rcParams)
    compared = [0]
    me = fs.current

    def make(f):
        kw = {"per_line": f["per_line"], "concat": f["concat"], "permute": f["permute"], "title": f["title"],
              "style": f["style"], "width": 2, "length": 2}
        if f["pivot"]:
            kw["pivot"] = f["pivot"]
        if f["filters"]:
            kw["filters"] = dict((k, list(v)) for k, v in f["filters"])
        for k, n in (("xlim", "xlim"), ("ylim", "ylim"), ("ncol", "legend_ncol")):
            if f[k] is not None:
                kw[n] = tuple(f[k]) if isinstance(f[k], list) else f[k]
        if f["label"]:
            kw["map_label"] = dict(map(tuple, f["label"]))
        if f["kind"] == "bar":
            kw["stacked"] = f["stacked"]
            if f["spacing"] is not None:
                kw["spacing"] = f["spacing"]
        else:
            kw["fill"], kw["scatter"] = f["fill"], f["scatter"]
            if f["drawstyle"]:
                kw["drawstyle"] = f["drawstyle"]
            if f["marker"]:
                kw["marker"] = f["marker"]
        src = [given[i] for i in f["src"]]
        if len(src) == 1 and f["str"]:
            src = src[0]
        names = "column"
        if f["of"] == "df":
            val = [c for _, c in f["sigs"]]
        else:
            names = "signals"
            val = ["%s:%s" % (e, c) + (":%d,0x10,3" % j if f["colors"] else "") for j, (e, c) in enumerate(f["sigs"])]
        kw[names] = val[0] if len(val) == 1 and f["str"] else val
        saved = repr((kw, len(src) if isinstance(src, list) else 1))
        p = (trappy.BarPlot if f["kind"] == "bar" else trappy.LinePlot)(src, **kw)
        ctx.check(repr((kw, len(src) if isinstance(src, list) else 1)) == saved, "argument",
                  "the arguments of a plot were changed: %s to %s" % (saved[:300], repr(kw)[:300]))
        return p

    def check(f, fig, what):
        axes, entries = want
        ctx.check(len(fig.axes) == len(axes), "axes", "%s: %d axes instead of %d (%s)" %
                  (what, len(fig.axes), len(axes), [a[0] for a in axes]))
        colour = {}
        cols = min(f["per_line"], len(axes))
        for k, (ax, (title, lines)) in enumerate(zip(fig.axes, axes)):
            at = "%s, axis %d (%r)" % (what, k, title)
            spec = ax.get_subplotspec()
            ctx.check((spec.rowspan.start, spec.colspan.start) == (k // cols, k % cols) and
                      spec.get_gridspec().get_geometry() == (-(-len(axes) // cols), cols), "layout",
                      "%s is at row %d, column %d of %s" % (at, spec.rowspan.start, spec.colspan.start,
                                                         spec.get_gridspec().get_geometry()))
            if lines:
                ctx.check(ax.get_title() == title, "title", "%s is called %r" % (at, ax.get_title()))
            if f["kind"] == "line":
                got = [list(zip(map(float, l.get_xdata()), map(float, l.get_ydata()))) for l in ax.lines]
                shown = [l.get_color() for l in ax.lines]
                ctx.check(got == [pts for _, pts in lines], "data", "%s shows %s instead of %s" %
                          (at, str(got)[:300], str([pts for _, pts in lines])[:300]))
                for l in ax.lines:
                    ctx.check(l.get_drawstyle() == (f["drawstyle"] or "default") and
                              l.get_marker() == ("o" if f["scatter"] else f["marker"] or "None") and
                              (l.get_linestyle() == "None") == f["scatter"], "style", "%s: drawn as %s, %s, %s" %
                              (at, l.get_drawstyle(), l.get_marker(), l.get_linestyle()))
                ctx.check(len(ax.collections) == (len(lines) if f["fill"] else 0), "style",
                          "%s: %d filled areas under %d lines" % (at, len(ax.collections), len(lines)))
                if f["xlim"] is not None and lines and f["xlim"][0] != f["xlim"][1]:
                    ctx.check(tuple(ax.get_xlim()) == tuple(f["xlim"]), "limits", "%s spans %s" % (at, ax.get_xlim()))
            else:
                bars = [[p for p in c] for c in ax.containers]
                shown = [matplotlib.colors.to_rgba(c[0].get_facecolor()) for c in bars]
                ctx.check([len(c) for c in bars] == [len(pts) for _, pts in lines], "data", "%s has %s bars instead of %s" %
                          (at, [len(c) for c in bars], [len(pts) for _, pts in lines]))
                group = 1 - (.2 if f["spacing"] is None else f["spacing"])
                width = group / (1 if f["stacked"] else max(1, len(lines)))
                for s, c in enumerate(bars):
                    for n, p in enumerate(c):
                        mid = n + (0 if f["stacked"] else s * width)
                        base = sum(lines[o][1][n][1] for o in range(s) if n < len(lines[o][1])) if f["stacked"] else 0
                        ctx.check(abs(p.get_x() + p.get_width() / 2 - mid) < 1e-9 and abs(p.get_width() - width) < 1e-9,
                                  "bars", "%s: bar %d of series %d is at %s, %s wide" % (at, n, s, p.get_x(), p.get_width()))
                        v = lines[s][1][n][1]
                        ctx.check(abs(p.get_height() - v) <= 1e-9 * (1 + abs(base) + abs(v)), "data",
                                  "%s: bar %d of series %d is %r high, not %r" % (at, n, s, p.get_height(), v))
                        ctx.check(abs(p.get_y() - base) <= 1e-9 * (1 + abs(base)), "bars",
                                  "%s: bar %d of series %d starts at %s, not %s" % (at, n, s, p.get_y(), base))
            if f["ylim"] is not None and lines:
                ctx.check(tuple(ax.get_ylim()) == tuple(f["ylim"]), "limits", "%s spans %s" % (at, ax.get_ylim()))
            for (e, _), c in zip(lines, shown):
                c = matplotlib.colors.to_rgba(c)
                ctx.check(colour.setdefault(e, c) == c, "colour", "%s: series %r has two colours" % (at, entries[e]))
        if f["colors"] and f["of"] == "trace" and not f["concat"] and len(f["sigs"]) > 1:
            for e, c in colour.items():
                ctx.check(max(abs(x - y) for x, y in zip(c, (e / 255., 16 / 255., 3 / 255.))) < .002, "colour",
                          "%s: series %r is drawn in %s" % (what, entries[e], c))
        elif not (f["colors"] and f["of"] == "trace"):
            ctx.check(len(set(colour.values())) == len(colour), "colour", "%s: two series have the same colour: %s" %
                      (what, colour))
        legend = fig.legends[0]
        drawn = sorted(set(e for _, lines in axes for e, _ in lines))
        texts = [t.get_text() for t in legend.get_texts()]
        ctx.check(texts == [entries[e] for e in drawn], "legend", "%s: the legend says %s instead of %s" %
                  (what, texts, [entries[e] for e in drawn]))
        for e, h in zip(drawn, legend.legendHandles):
            c = h.get_color() if f["kind"] == "line" else h.get_facecolor()
            ctx.check(matplotlib.colors.to_rgba(c) == colour[e], "legend", "%s: the legend has the colour of another series "
                      "for %r" % (what, entries[e]))
        ctx.check((fig._suptitle.get_text() if fig._suptitle else None) == f["title"], "title", "%s: its title is %r" %
                  (what, fig._suptitle))

    for num, f in enumerate(case["figs"]):
        if not f["sigs"]:
            continue
        what = "figure %d (%s of %s)" % (num, f["kind"], f["of"])
        want = expected(f, case)
        mine = None
        if f["other"]:
            mine = plt.figure()
            mine.gca().plot([1, 2], [3, 4])
        try:
            p = make(f)
        except UserWarning:
            raise
        legit = not want[0]
        fired = []
        if f["line"]:
            li = sched.LineInterrupt(core.REPO + "/trappy", f["line"], KeyboardInterrupt)
            try:
                with li:
                    p.view(test=f["style"])
            except KeyboardInterrupt:
                if not li.fired:
                    raise
                ctx.fault("interrupt@line")
                fired.append("intr")
            except RuntimeError:
                if not legit:
                    raise
        if legit:
            try:
                p.view(test=f["style"])
            except RuntimeError:
                ctx.stat("refused")
                plt.close("all")
                continue
            ctx.violate("axes", "%s: there is nothing to plot, yet it is plotted: %s" % (what, f))
        for v in range(f["views"]):
            p.view(test=f["style"])
            check(f, plt.gcf(), "%s, view %d" % (what, v))
            compared[0] += 1
            ctx.stat("figures compared")
        path = ctx.dir + "/out/fig%d.png" % num
        if f["saves"] or f["views"] != 1:
            # as often as the disk or the user refuses, and once more
            for k in range(len(f["saves"]) + 2):
                li = None
                me.fired = []
                me.arm([f["saves"][k]] if k < len(f["saves"]) else [])
                ctx.fs.chunks = None
                try:
                    if f["saveline"] and k == 0:
                        li = sched.LineInterrupt(core.REPO + "/trappy", f["saveline"], KeyboardInterrupt)
                        with li:
                            p.savefig(path)
                    else:
                        p.savefig(path)
                except (OSError, KeyboardInterrupt, MemoryError) as e:
                    if not me.fired and not (li and li.fired):
                        raise
                    fired.append(type(e).__name__)
                    ctx.stat("saving refused")
                    me.arm([])
                    continue
                me.arm([])
                ref = io.BytesIO()
                q = make(f)
                q.savefig(ref)
                # (writes to memory; the disk has no part in it)
                got = ops.get(path)
                ctx.check(got == ref.getvalue(), "image", "%s: savefig returned, but the image (%d bytes) is not that of the "
                          "figure (%d bytes)%s" % (what, len(got), len(ref.getvalue()), " after " + str(fired) if fired else ""))
                check(f, A.figure_of(p), what + " as saved")
                compared[0] += 1
                ctx.stat("images compared")
                if k >= len(f["saves"]):
                    break
            else:
                ctx.violate("refused", "%s: cannot be saved any more" % what)
        if mine is not None:
            ctx.check(len(mine.axes) == 1 and len(mine.axes[0].lines) == 1 and plt.fignum_exists(mine.number), "foreign",
                      "%s: was drawn into another figure" % what)
        now = dict(plt.rcParams)
        diff = sorted(k for k in settings if k not in ("backend", "interactive") and repr(settings[k]) != repr(now[k]))
        ctx.check(not diff, "settings", "%s: changed matplotlib's settings %s" % (what, diff[:5]))
        ctx.covered(f["kind"], len(f["src"]), len(f["sigs"]), f["pivot"], f["concat"], f["permute"], f["stacked"],
                    f["per_line"], len(want[0]), tuple(fired), f["views"])
        ctx.nontrivial = ctx.nontrivial or len(want[0]) > 1 or len(want[1]) > 1 or bool(fired)
        ctx.log(what, len(want[0]), fired)
        plt.close("all")
    ctx.check([[ops.table(t) for t in ts] for ts in dfs] == before, "argument", "the plotted tables were changed")
    ctx.sim_ns = fs.clock_ns - 1500000000 * 10 ** 9

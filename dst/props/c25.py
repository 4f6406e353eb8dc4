"""C25: in the browser, line plots keep all their samples, and groups of them one window."""
import json
import re

import pandas as pd

from dst import core, webpage

ID = "C25"
LEVEL = "exploration"
QUICK, THOROUGH = 2400, 60000
SHRINK = ("steps", "figures", "tables", "rows", "cols")
SIMPLIFY = {"sync": [False], "xlim": [None], "ylim": [None], "dt": [400, 0], "width": [1000], "colors": [False], "scatter": [False],
            "fill": [False], "drawstyle": [None], "per_line": [1], "group": [None], "alpha": [None], "concat": [False]}
RULE = ("A case is a notebook in a browser: 1-4 cells with figures of 1-4 line plots each, in groups that zoom together or not, are run, "
        "cleared and run again while scripts arrive late and in any order; the user zooms in both directions, resets a zoom, resizes "
        "the window. After every step each plot must hold the samples of its data in order, with its options, as wide as its "
        "cell allows; what shares a group must show one window, wide enough for every plot that joined; zooming one of a group moves "
        "all of it if it was made so, and nothing else; a reset shows all samples of the group. Non-trivial: a user's zoom, or "
        "a plot joining a group of others.")
MEASURE = "(step, step before, plots on the page, groups, largest group, synchronised, timers pending) combinations"
REAL = ["ILinePlot.js", "ILinePlotGen, ILinePlot, Constraint"]
STUB = ["browser, DOM, jQuery, require.js (simulated, under node)", "dygraphs 1.1.1 and its synchronizer, rewritten from their documentation",
        "mouse, window, clock, delivery of scripts"]
ASSUME = ["plots of one group are all synchronised or none of them is"]

GROUPS = [None, None, "g1", "g1", "g2", "sort"]


def gen_table(rng):
    t0 = rng.choice([0, 0, 5, 100, 86400]) * 1000000
    step = rng.choice([1, 1000, 1000000])
    rows, now = [], t0
    for _ in range(rng.choice([1, 2, 3, 6, 12])):
        rows.append([now, rng.randrange(4), rng.randrange(-50, 1000), rng.choice([.5, -2.25, 3.0]) * rng.randrange(9)])
        now += step * rng.choice([1, 1, 2, 10])
    return rows


def gen(rng, i, tier):
    sync = dict((g, rng.random() < .6) for g in GROUPS)
    figs = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        g = rng.choice(GROUPS)
        figs.append({"rows": gen_table(rng), "cols": rng.choice([["a"], ["b"], ["a", "b"]]), "pivot": rng.random() < .5, "group": g,
                     "sync": sync[g] if g else rng.random() < .5, "per_line": rng.choice([1, 1, 2, 3]),
                     "xlim": rng.choice([None, None, None, [.25, .75], [-.5, 2]]), "ylim": rng.choice([None, None, [0, 10]]),
                     "drawstyle": rng.choice([None, None, "steps-post"]), "fill": rng.random() < .2, "scatter": rng.random() < .2,
                     "alpha": rng.choice([None, None, .3]), "colors": rng.random() < .3, "concat": rng.random() < .25,
                     "only": rng.choice([None, None, None, [0], [0, 1]])})
    steps = [{"op": "cell", "plot": k, "dt": rng.choice([0, 5, 400])} for k in range(len(figs))]
    rng.shuffle(steps)
    for _ in range(rng.choice([2, 4, 8, 12])):
        r, p = rng.random(), rng.randrange(len(figs))
        s = {"plot": p, "dt": rng.choice([0, 10, 400])}
        if r < .1:
            s["op"] = "clear"
        elif r < .25:
            s["op"] = "cell"
        elif r < .4:
            s = {"op": "resize", "width": rng.choice([400, 640, 1000, 1281, 1700]), "dt": s["dt"]}
        elif r < .55:
            s["op"] = "reset"
        else:
            s["op"] = rng.choice(["zoomx", "zoomx", "zoomy"])
            s["part"] = rng.choice([[.2, .6], [.4, .5], [.7, 1.], [0., .3], [-.5, 1.5]])
        s["nth"] = rng.randrange(4)
        steps.append(s)
    return {"figures": figs, "steps": steps, "width": rng.choice([500, 800, 1000, 1400]),
            "delays": [rng.choice([0, 1, 5, 20, 90]) for _ in range(5)]}


def figure(f):
    """The figure's HTML, made by TRAPpy."""
    import trappy
    from trappy.plotter import ILinePlotGen as G
    df = pd.DataFrame({"p": [r[1] for r in f["rows"]], "a": [r[2] for r in f["rows"]], "b": [r[3] for r in f["rows"]]},
                      index=pd.Index([r[0] / 1e6 for r in f["rows"]], name="Time"))
    t = trappy.BareTrace("t")
    t.add_parsed_event("evt", df, pivot="p")
    kw = {}
    if f["colors"]:
        kw["signals"] = ["evt:%s:%d,0x1f,3" % (c, 10 + k) for k, c in enumerate(f["cols"])]
    else:
        kw["signals"] = ["evt:" + c for c in f["cols"]]
    x = [r[0] / 1e6 for r in f["rows"]]
    if f["xlim"]:
        w = (max(x) - min(x)) or 1.
        kw["xlim"] = [min(x) + w * f["xlim"][0], min(x) + w * f["xlim"][1]]
    for k in ("ylim", "drawstyle", "group"):
        if f[k] is not None:
            kw[k] = f[k]
    if f["alpha"] is not None:
        kw["fill_alpha"] = f["alpha"]
    if f["pivot"]:
        kw["pivot"] = "p"
    if f["only"]:
        kw["filters"] = {"p": f["only"]}
    out = []
    was = G.display
    G.display = lambda h: out.append(h.data)
    try:
        trappy.ILinePlot(t, sync_zoom=f["sync"], per_line=f["per_line"], fill=f["fill"], scatter=f["scatter"], concat=f["concat"], **kw).view(test=True)
    finally:
        G.display = was
    return out[0]


def run(case, ctx):
    if not case["figures"] or any(not f["rows"] or not f["cols"] for f in case["figures"]):
        raise core.Skip("nothing to plot")
    by_group = {}
    for f in case["figures"]:
        if f["group"] and by_group.setdefault(f["group"], f["sync"]) != f["sync"]:
            raise core.Skip("mixed group")
    session = {"width": case["width"], "files": webpage.files(), "delays": case["delays"] or [1], "steps": []}
    current, D = {}, {}
    for s in case["steps"]:
        t, p = dict(s), s.get("plot")
        if p is not None:
            if p >= len(case["figures"]):
                continue
            if s["op"] == "cell":
                try:
                    t["html"] = figure(case["figures"][p])
                except (RuntimeError, ValueError) as e:
                    # no sample is left
                    ctx.log("refused", p, type(e).__name__)
                    continue
                t["id"] = "cell%d" % p
                names = re.findall(r'class="ilineplot" id="([^"]*)"', t["html"])
                for n in names:
                    D[n] = json.loads(re.search(r"var %s_data = (.*);" % n, t["html"]).group(1))
                    c = re.search(r"ILinePlot.generate\(%s_data(?:, (\[.*?\]))?\);" % n, t["html"])
                    D[n]["colors"] = json.loads(c.group(1).replace("'", '"')) if c and c.group(1) else None
                current[p] = names
            elif s["op"] == "clear":
                t["id"] = "cell%d" % p
                current.pop(p, None)
            elif not current.get(p):
                continue
            else:
                t["fig"] = current[p][s["nth"] % len(current[p])]
        t["now"] = [n for k in sorted(current) for n in current[k]]
        session["steps"].append(t)
    seen = webpage.run(ctx.dir, dict(session, steps=[dict((k, v) for k, v in t.items() if k != "now") for t in session["steps"]]))

    width, clock, before, acted = case["width"], 0, None, False
    st = {}
    for k, (t, o) in enumerate(zip(session["steps"], seen)):
        what = "step %d (%s)" % (k, " ".join(str(t[x]) for x in ("op", "plot", "part") if x in t))
        ctx.log(what, o["res"], len(o["plots"]), o["pending"])
        ctx.check(not o["errors"], "error", lambda: "%s: the page has the error %s" % (what, o["errors"][:2]))
        ctx.check(not o["missing"], "missing", lambda: "%s: the page asks for %s, which is not installed" % (what, o["missing"]))
        empty = [n for n in t["now"] if not D[n]["data"]["data"]]
        bad = [x for x in o["console"] if not ("empty data set" in x and any(not d["data"]["data"] for d in D.values()))]
        ctx.check(not bad, "console", lambda: "%s: the console says %s" % (what, bad[:2]))
        if t["op"] == "resize":
            width = t["width"]
        ctx.check(sorted(o["plots"]) == sorted(t["now"]), "plots", lambda: "%s: the page has the plots %s" % (what, sorted(o["plots"])))
        live, new = {}, []
        for n in t["now"]:
            v = o["plots"][n]["line"]
            if v is None:
                ctx.check(o["pending"] > 0, "not-drawn", lambda: "%s: %s was never drawn" % (what, n))
                ctx.check(n not in st, "gone", lambda: "%s: the plot %s is gone" % (what, n))
                continue
            live[n] = v
            if n not in st:
                new.append(n)
            check_graph(ctx, "%s, %s" % (what, n), D[n], v, width)
        st = dict((n, st[n]) for n in st if n in live)
        groups = {}
        for n in live:
            if n not in empty:
                groups.setdefault(D[n]["syncGroup"], []).append(n)
        skipped = (o["res"] or {}).get("skipped") or (o["res"] or {}).get("none")
        for g, ns in sorted(groups.items()):
            joined = [n for n in ns if n in new]
            old = [n for n in ns if n in st]
            sync = all(D[n]["syncZoom"] for n in ns)
            whole = len(ns) >= 2
            say = "%s, group %s of %d" % (what, g, len(ns))
            hit = t.get("fig") in old and not skipped and t["op"] in ("zoomx", "zoomy", "reset")
            xs = dict((n, live[n]["x"]) for n in ns)
            ys = dict((n, live[n]["y"]) for n in ns)
            for n in ns:
                ctx.check(all(isinstance(q, (int, float)) for q in xs[n] + ys[n]), "window", lambda: "%s: a plot shows %s, %s" % (say, xs[n], ys[n]))
            same = lambda a: max(map(max, a)) == min(map(max, a)) and max(map(min, a)) == min(map(min, a))
            if hit:
                acted = True
            if joined:
                acted = acted or whole
                if whole:
                    ctx.check(same(xs.values()) and same(ys.values()), "joined", lambda: "%s: after a plot joined they show %s, %s" % (say, xs, ys))
                need = [full(D[n]) for n in joined] + [st[n]["x"] for n in old if not hit]
                got = list(xs.values())[0]
                lo, hi = min(w[0] for w in need), max(w[1] for w in need)
                if not hit:
                    ctx.check(got == [lo, hi], "joined", lambda: "%s: after a plot joined the window is %s, %s was shown before, %s joined" % (
                        say, got, [st[n]["x"] for n in old], need))
                for n in joined:
                    v = values(D[n], full(D[n])) if D[n].get("valueRange") is None else D[n]["valueRange"]
                    ctx.check(not v or (ys[n][0] <= min(v) and ys[n][1] >= max(v)), "joined", lambda: "%s: a plot joined with the values %s, %s "
                              "is shown" % (say, (min(v), max(v)), ys[n]))
            elif hit and t["op"] == "reset":
                who = ns if whole and sync else [t["fig"]]
                for n in who:
                    f = [min(D[m]["data"]["data"][0][0] for m in who), max(D[m]["data"]["data"][-1][0] for m in who)]
                    ctx.check(xs[n][0] <= f[0] and xs[n][1] >= f[1], "reset", lambda: "%s: after a reset %s shows %s, the samples are in %s" % (say, n, xs[n], f))
                for n in ns:
                    if n not in who:
                        ctx.check(xs[n] == st[n]["x"] and ys[n] == st[n]["y"], "others", lambda: "%s: the reset of another plot changed %s, %s to %s, %s"
                                  % (say, st[n]["x"], st[n]["y"], xs[n], ys[n]))
            elif hit:
                f = t["fig"]
                axis_ = "x" if t["op"] == "zoomx" else "y"
                for n in ns:
                    if n == f or (whole and sync):
                        w = [o["res"]["a"], o["res"]["b"]]
                        ctx.check(live[n][axis_] == w, "zoom", lambda: "%s: %s shows %s after a zoom to %s" % (say, n, live[n][axis_], w))
                        if axis_ == "y":
                            ctx.check(xs[n] == st[f]["x"], "zoom", lambda: "%s: a zoom of the values changed the window from %s to %s" % (say, st[f]["x"], xs[n]))
                    else:
                        ctx.check(xs[n] == st[n]["x"] and ys[n] == st[n]["y"], "others", lambda: "%s: the zoom of another plot changed %s, %s to %s, %s"
                                  % (say, st[n]["x"], st[n]["y"], xs[n], ys[n]))
                if whole and sync:
                    ctx.check(same(xs.values()) and same(ys.values()), "zoom", lambda: "%s: after a zoom they show %s, %s" % (say, xs, ys))
            else:
                for n in old:
                    ctx.check(xs[n] == st[n]["x"] and ys[n] == st[n]["y"], "others", lambda: "%s: nobody touched %s, it went from %s, %s to %s, %s"
                              % (say, n, st[n]["x"], st[n]["y"], xs[n], ys[n]))
        for n in live:
            st[n] = {"x": live[n]["x"], "y": live[n]["y"]}
        ctx.covered(t["op"], before, len(live), len(groups), max([len(x) for x in groups.values()] or [0]),
                    any(D[n]["syncZoom"] for n in live), o["pending"] > 0)
        ctx.fault("step: " + t["op"])
        if o["pending"]:
            ctx.fault("timer pending at the next step")
        before = t["op"]
        clock += t["dt"]
    ctx.stat("steps", len(seen))
    ctx.nontrivial = acted
    ctx.sim_ns = clock * 1000000


def full(d):
    """What a new plot shows by itself."""
    if d.get("dateWindow"):
        return list(d["dateWindow"])
    r = d["data"]["data"]
    return [r[0][0], r[-1][0]]


def values(d, w):
    return [v for r in d["data"]["data"] if w[0] <= r[0] <= w[1] for v in r[1:] if v is not None and v == v]


def check_graph(ctx, what, d, v, width):
    rows, mine = v["rows"] or [], d["data"]["data"]
    none = lambda r: all(x is None for x in r[1:])
    norm = lambda rs: [[None if x is None or x != x or x == "NaN" else x for x in r] for r in rs]
    rows, mine = norm(rows), norm(mine)
    at = [k for k in range(len(rows) - len(mine) + 1) if rows[k:k + len(mine)] == mine]
    ctx.check(at and all(none(r) for r in rows[:at[0]] + rows[at[0] + len(mine):]), "samples", lambda: "%s: the samples are %s, the plot holds %s"
              % (what, mine[:6], rows[:8]))
    ctx.check(len(rows) - len(mine) <= 2, "samples", lambda: "%s: there are %d samples, the plot holds %d" % (what, len(mine), len(rows)))
    ctx.check(all(isinstance(r[0], (int, float)) for r in rows) and all(a[0] <= b[0] for a, b in zip(rows, rows[1:])), "order",
              lambda: "%s: the plot's samples are at %s" % (what, [r[0] for r in rows]))
    o = v["options"]
    want = {"title": d["title"], "labels": d["data"]["labels"], "stepPlot": d["step_plot"], "fillGraph": d["fill_graph"], "drawPoints": d["drawPoints"],
            "strokeWidth": d["strokeWidth"], "pointSize": d["pointSize"], "labelsDiv": d["name"] + "_legend", "connectSeparatedPoints": True}
    if "fill_alpha" in d:
        want["fillAlpha"] = d["fill_alpha"]
    if d["colors"]:
        want["colors"] = d["colors"]
    for k in sorted(want):
        ctx.check(o.get(k) == want[k], "options", lambda: "%s: the option %s is %r, it was given as %r" % (what, k, o.get(k), want[k]))
    w = float(width) / d["per_line"]
    ctx.check(isinstance(v["width"], (int, float)) and w - 4 <= v["width"] <= w and v["height"] == d["height"], "width", lambda: "%s: a plot of %d in a line "
              "is %s wide and %s high in a cell of %s" % (what, d["per_line"], v["width"], v["height"], width))

"""C24: in the browser, an event plot shows what happened in its window, whatever was done before."""
import re

from dst import core, webpage

ID = "C24"
LEVEL = "exploration"
QUICK, THOROUGH = 1600, 40000
SHRINK = ("steps", "plots", "moves", "items", "spans", "names")
SIMPLIFY = {"summary": [True], "colors": [None], "dt": [400, 0], "width": [1000], "ctrl": [False], "alt": [False],
            "press": [False], "shift": [False], "labels": [None], "y": [.5], "x": [.5]}
RULE = ("A case is a notebook in a browser: 1-3 cells with event plots are run, cleared and run again while scripts arrive late "
        "and in any order; the user turns the wheel, drags, double-clicks, brushes and clicks in the summary, sets marks, asks for "
        "an interval, hovers, resizes the window; steps overlap timers and animations that the earlier ones started. After every "
        "step, each plot on the page must show every interval of its window at the place its axis gives, on its lane, in its "
        "colour, and nothing else; the summary, the brush, the marks and the texts must agree with it; and the window must be the one "
        "the user asked for. Non-trivial: a plot was changed and another step followed.")
MEASURE = "(step, step before, plots on the page, summary, timers pending) combinations"
REAL = ["EventPlot.html and EventPlot.js"]
STUB = ["browser, DOM, jQuery, require.js (simulated, under node)", "d3 3.5.6 and d3-tip, rewritten from their documentation",
        "mouse, window, clock, delivery of scripts"]
ASSUME = ["intervals narrower than a fiftieth of a pixel need not be drawn", "tasks do not share a lane at one time",
          "the zoom keeps d3's way of choosing the point that stays in place"]

NAMES = ["bash-1", "kworker/0:1-7", "my task-3", "<...>-99", "</svg><b>x-2", "a&b-4", "Binder_2-8", u"\u00fcn\u00ef-5", "toString-1",
         "x-1", "x-2", "x-3", "10", "9"]
COLORS = ["#112233", "red", "#00ff00", "navy"]


def gen_plot(rng):
    n = rng.choice([1, 1, 2, 3, 5])
    lanes = rng.choice([1, 2, 2, 4])
    t0 = rng.choice([0, 0, 100, 86400])
    span = rng.choice([1, 10, 10, 1000]) * 1000000
    names = rng.sample(NAMES, n)
    spans = []
    for lane in range(lanes):
        now = rng.randrange(0, span // 2) if rng.random() < .5 else 0
        while now < span and len(spans) < 40:
            w = rng.choice([span // 3, span // 10, span // 100, span // 5000, 1, 40])
            e = min(span, now + max(1, w))
            if e > now and rng.random() < .9:
                spans.append([rng.choice(names), now, e, lane])
            now = e + rng.choice([0, 0, 1, span // 100, span // 7])
            if rng.random() < .1:
                break
    colors = None
    if rng.random() < .35:
        colors = dict((x, rng.choice(COLORS)) for x in names if rng.random() < .7)
    labels = None
    if rng.random() < .3:
        labels = rng.sample(["big", "LITTLE", "GPU", "CPU 9", "<0>"], lanes)
    return {"t0": t0, "span": span, "lanes": lanes, "spans": spans, "summary": rng.random() < .75, "colors": colors,
            "labels": labels}


def gen_step(rng, p, plot):
    op = rng.choice(["wheel", "wheel", "wheel", "drag", "drag", "brush", "brush", "brush", "mark", "mark", "ask", "ask", "dbl", "hover",
                     "resize", "resize", "help", "wait"])
    s = {"op": op, "dt": rng.choice([0, 10, 30, 49, 60, 100, 400, 400])}
    if op in ("resize",):
        s["width"] = rng.choice([400, 640, 800, 1000, 1281, 1700])
        return s
    if op == "wait":
        return s
    s["plot"] = p
    if op == "wheel":
        s["x"], s["dy"] = round(rng.uniform(0, .8), 3), rng.choice([-100, -300, -300, -1000, 100, 300, 900, 5000])
    elif op == "dbl":
        s["x"], s["shift"] = round(rng.uniform(0, .8), 3), rng.random() < .4
    elif op == "drag":
        s["from"] = round(rng.uniform(.05, .95), 3)
        s["moves"] = [round(rng.uniform(-.3, 1.3), 3) for _ in range(rng.choice([1, 1, 2, 3]))]
    elif op == "brush":
        s["part"] = rng.choice(["background", "background", "extent", "extent", "e", "w"])
        s["from"] = round(rng.uniform(.02, .98), 3)
        s["moves"] = [round(rng.uniform(-.6, .6), 3) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    elif op in ("mark", "ask"):
        s["x"], s["y"] = round(rng.uniform(0, 1), 3), round(rng.uniform(.02, .98), 3)
        s["ctrl"] = op == "ask" or rng.random() < .5
        s["alt"] = op == "ask"
        if op == "ask" and rng.random() < .6:
            # on an interval, if the window is the whole of the plot
            n, a, b, lane = rng.choice(plot["spans"])
            s["x"], s["y"] = round((a + b) / 2. / plot["span"], 4), round((lane + .5) / plot["lanes"], 3)
        s["press"] = rng.random() < .6
        s["op"] = "mark"
    elif op == "hover":
        s["nth"] = round(rng.random(), 3)
    return s


def gen(rng, i, tier):
    plots = [gen_plot(rng) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    plots = [p for p in plots if p["spans"]] or [gen_plot(rng)]
    steps = [{"op": "cell", "plot": k, "dt": rng.choice([0, 5, 400, 400])} for k in range(len(plots))]
    rng.shuffle(steps)
    for _ in range(rng.choice([2, 4, 7, 12])):
        r = rng.random()
        p = rng.randrange(len(plots))
        if r < .04:
            steps.append({"op": "clear", "plot": p, "dt": rng.choice([0, 100])})
        elif r < .1:
            steps.append({"op": "cell", "plot": p, "dt": rng.choice([0, 100, 400])})
        else:
            steps.append(gen_step(rng, p, plots[p]))
            while steps[-1].get("alt") and rng.random() < .4:
                steps.append(gen_step(rng, p, plots[p]))
    return {"plots": plots, "steps": steps, "width": rng.choice([500, 800, 1000, 1000, 1400]),
            "delays": [rng.choice([0, 1, 5, 20, 90]) for _ in range(4)]}


def run(case, ctx):
    from trappy.plotter import EventPlot as EP
    if not case["plots"] or any(not p["spans"] for p in case["plots"]):
        raise core.Skip("nothing to plot")
    P = []
    for p in case["plots"]:
        t0, us = p["t0"], 1e6
        data = {}
        lab = p["labels"] if p["labels"] and len(p["labels"]) >= p["lanes"] else None
        for n, a, b, l in p["spans"]:
            data.setdefault(n, []).append([t0 + a / us, t0 + b / us, lab[l] if lab else l])
        for n in data:
            data[n].sort(key=lambda x: x[0])
        if lab:
            kw = {"lanes": lab[:p["lanes"]]}
        else:
            kw = {"num_lanes": p["lanes"]}
        dom = [t0, t0 + p["span"] / us]
        plot = EP.EventPlot(data, list(data), dom, summary=p["summary"], color_map=p["colors"], **kw)
        order = lab[:p["lanes"]] if lab else list(range(p["lanes"]))
        P.append({"plot": plot, "dom": dom, "spans": [(n, s, e, order.index(l)) for n in data for s, e, l in data[n]],
                  "labels": [str(x) for x in lab[:p["lanes"]]] if lab else ["Lane: %d" % k for k in range(p["lanes"])],
                  "summary": p["summary"], "colors": p["colors"]})
    session = {"width": case["width"], "files": webpage.files(), "delays": case["delays"] or [1], "steps": []}
    current = {}        # plot -> figure on the page
    kept = []
    for s in case["steps"]:
        p = s.get("plot")
        t = dict(s)
        if p is not None:
            if p >= len(P):
                continue
            if s["op"] == "cell":
                t["html"] = P[p]["plot"].html()
                m = re.findall(r'<div id="([^"]*)"', t["html"])
                current[p] = m[0] if m else None
                t["id"] = "cell%d" % p
            elif s["op"] == "clear":
                t["id"] = "cell%d" % p
                current.pop(p, None)
            elif p not in current:
                continue
            else:
                t["fig"] = current[p]
        t["now"] = dict((current[k], k) for k in current)
        kept.append(s)
        session["steps"].append(t)
    sent = dict(session, steps=[dict((k, v) for k, v in t.items() if k != "now") for t in session["steps"]])
    seen = webpage.run(ctx.dir, sent)

    width = case["width"]
    st = {}             # figure -> what the model knows about it
    clock = 0
    before = None
    changed = 0
    for k, (t, o) in enumerate(zip(session["steps"], seen)):
        what = "step %d (%s)" % (k, " ".join(str(t[x]) for x in ("op", "plot", "part", "dy") if x in t))
        ctx.log(what, o["res"], sorted(o["plots"]), o["pending"])
        ctx.check(not o["errors"], "error", lambda: "%s: the page has the error %s" % (what, o["errors"][:2]))
        ctx.check(not o["missing"], "missing", lambda: "%s: the page asks for %s, which is not installed" % (what, o["missing"]))
        ctx.check(not o["console"], "console", lambda: "%s: the console says %s" % (what, o["console"][:2]))
        if t["op"] == "resize":
            width = t["width"]
        ctx.check(sorted(o["plots"]) == sorted(t["now"]), "plots", lambda: "%s: the page has the plots %s" % (what, sorted(o["plots"])))
        step_end = clock + t["dt"]
        for fig, view in sorted(o["plots"].items()):
            p = P[t["now"][fig]]
            v = view["event"]
            if fig not in st:
                if v["main"] is None:
                    # its scripts have not arrived
                    ctx.check(o["pending"] > 0, "not-drawn", lambda: "%s: %s was never drawn" % (what, fig))
                    continue
                st[fig] = {"W": p["dom"], "A": None, "B": None, "ctx": None, "anim": -1, "ctxt": -1, "colors": {}, "info": None}
            m = st[fig]
            mine = t.get("fig") == fig and not (o["res"] or {}).get("skipped")
            what_p = "%s, plot %d" % (what, t["now"][fig])
            check_plot(ctx, what_p, p, m, v, width, t if mine else None, o["res"], clock, step_end)
            if mine and t["op"] != "wait":
                changed += 1
        alive = len(o["plots"])
        ctx.covered(t["op"], t.get("part"), before, alive, o["pending"] > 0)
        before = t["op"]
        ctx.fault("step: " + t["op"])
        if o["pending"]:
            ctx.fault("timer pending at the next step")
        clock = step_end
    ctx.stat("steps", len(seen))
    ctx.nontrivial = changed > 1
    ctx.sim_ns = clock * 1000000


def axis(ctx, what, c, dom):
    """The window the ticks of an axis say."""
    ticks = c["ticks"]
    ctx.check(len(ticks) > 1 and all(isinstance(x, (int, float)) for t in ticks for x in t[:2]), "axis",
              lambda: "%s: the axis has the ticks %s" % (what, ticks))
    ticks = sorted(ticks)
    (v0, x0, _), (v1, x1, _) = ticks[0], ticks[-1]
    ctx.check(x1 > x0, "axis", lambda: "%s: the axis goes backwards: %s" % (what, ticks))
    per = (v1 - v0) / (x1 - x0)
    for v, x, _ in ticks:
        ctx.check(abs(v0 + (x - x0) * per - v) < .05 * per + 1e-9 * abs(v), "axis", lambda: "%s: the ticks %s are not on one scale"
                  % (what, ticks))
    w = c["right"] - c["left"]
    a = v0 - x0 * per
    return [a, a + w * per]


def check_bars(ctx, what, p, W, c, colors):
    w = c["right"] - c["left"]
    px = w / (W[1] - W[0])
    eps = 1e-12 * max(abs(W[1]), 1) * px + .02
    ys = dict((l[0], l[1]) for l in c["labels"])
    want, may = {}, {}
    for n, s, e, lane in p["spans"]:
        a, b = max(s, W[0]), min(e, W[1])
        if b < a - eps / px:
            continue
        xa, xb = (a - W[0]) * px, (b - W[0]) * px
        y = c["labels"][lane][1]
        d = (xa, xb, y)
        (want if xb - xa > .02 + eps else may).setdefault(n, []).append(d)
    got = {}
    for bar in c["bars"]:
        n = bar["name"]
        ctx.check(n in set(s[0] for s in p["spans"]), "bars", lambda: "%s: there is a bar of %r" % (what, n))
        ctx.check(bar["color"] and bar["color"] == colors.setdefault(n, bar["color"]), "colour", lambda: "%s: %s has the colour %s, "
                  "and before %s" % (what, n, bar["color"], colors.get(n)))
        got.setdefault(n, []).extend(map(tuple, bar["segs"]))

    def fits(d, g):
        return all(isinstance(x, (int, float)) for x in g) and abs(g[0] - d[0]) <= eps and abs(g[2] - d[2]) <= 2 and \
            (abs(g[1] - d[1]) <= eps or (d[1] - d[0] < 1 + eps and abs(g[1] - g[0] - 1) <= eps))
    for n in want:
        for d in want[n]:
            ctx.check(any(fits(d, g) for g in got.get(n, ())), "bar-missing", lambda: "%s: the window %s shows no bar of %s from pixel "
                      "%.3f to %.3f at y %.1f; there are %s" % (what, W, n, d[0], d[1], d[2], sorted(set(got.get(n, ())))[:8]))
    for n in got:
        for g in got[n]:
            ctx.check(any(fits(d, g) for d in want.get(n, []) + may.get(n, [])), "bar-wrong", lambda: "%s: the window %s shows %s at %s, "
                      "where nothing of it happened; it was at %s" % (what, W, n, g, want.get(n)))


def check_info(ctx, what, v, width):
    """The texts above the chart: in their boxes, which share its width."""
    if not v["infoWidth"]:
        return
    w, boxes = v["infoWidth"][0], sorted(v["boxes"])
    say = lambda: "%s: the texts %s and the boxes %s above the chart of a cell of %s" % (what, v["texts"], boxes, width)
    ctx.check(abs(w - width) < 1.5, "info", say)
    ends = [[b[0], b[0] + b[1]] for b in boxes]
    ctx.check(all(b[1] > 0 for b in boxes) and all(a[1] < b[0] + 1 and b[0] - a[1] < 12 for a, b in zip(ends, ends[1:])) and
              ends[-1][1] <= width - 5 and ends[-1][1] - ends[0][0] > width - 105, "info", say)
    for t, x, anchor, fill in v["texts"]:
        if not t:
            continue
        k = [b for b in ends if b[0] < x < b[1]]
        ctx.check(len(k) == 1, "info", say)
        if t.startswith("A ="):
            ctx.check(anchor == "start" and x < k[0][0] + 40 and k[0] is not ends[-1] and fill == "green", "info", say)
        elif t.startswith("B ="):
            ctx.check(anchor == "end" and x > k[0][1] - 40 and k[0] is not ends[-1] and fill == "red", "info", say)
        elif t.startswith("A - B"):
            mid = (k[0][0] + k[0][1]) / 2
            ctx.check(abs(x - mid) < 40 and k[0] is not ends[-1] and fill == "blue", "info", say)
        elif re.match(r"-?[\d.]+ to ", t):
            ctx.check(anchor == "end" and x > k[0][1] - 40 and k[0] is ends[-1], "info", say)
        else:
            ctx.check(anchor == "start" and x < k[0][0] + 40 and k[0] is ends[-1], "info", say)


def check_plot(ctx, what, p, m, v, width, t, res, t0, t1):
    ctx.check(v["main"] is not None, "gone", lambda: "%s: the chart is gone" % what)
    ctx.check((v["mini"] is not None) == p["summary"], "summary", lambda: "%s: there is %s summary" % (what, "a" if v["mini"] else "no"))
    D = p["dom"]
    for c in (v["main"], v["mini"]):
        if c is None:
            continue
        ctx.check(abs(c["right"] - c["left"] - (width - 85)) < 1.5, "width", lambda: "%s: a chart is %s pixels wide in a cell of %s"
                  % (what, c["right"] - c["left"], width))
        ctx.check([l[0] for l in c["labels"]] == p["labels"], "lanes", lambda: "%s: the lanes are %s" % (what, c["labels"]))
        for k, l in enumerate(c["labels"]):
            h = c["bottom"]
            ctx.check(0 < l[1] <= h + 30 and (k == 0 or l[1] > c["labels"][k - 1][1]), "lanes", lambda: "%s: the lanes are at %s" % (what, c["labels"]))
        ctx.check(c["right"] <= c["width"] + .5 and c["bottom"] <= c["height"] + .5 and
                  all(15 <= b[1] - a[1] <= 60 if c is v["main"] else 5 <= b[1] - a[1] for a, b in zip(c["labels"], c["labels"][1:])) and
                  c["labels"][-1][1] < c["bottom"] + 1, "layout", lambda: "%s: a drawing of %s by %s has its axis at %s, from %s to %s, and the lanes at %s"
                  % (what, c["width"], c["height"], c["bottom"], c["left"], c["right"], c["labels"]))
        for l in c["lines"]:
            ctx.check(abs(l[0]) < 1 and abs(l[1] - (width - 85)) < 1.5, "lanes", lambda: "%s: the line of a lane goes from %s to %s"
                      % (what, l[0], l[1]))
    c = v["main"]
    W = axis(ctx, what, c, D)
    px = (c["right"] - c["left"]) / (W[1] - W[0])
    tol = 1e-9 * (D[1] - D[0]) + 1e-11 * abs(D[1]) + .05 / px
    ctx.check(W[0] > D[0] - tol and W[1] < D[1] + tol, "outside", lambda: "%s: the window %s is outside of %s" % (what, W, D))
    check_bars(ctx, what, p, W, c, m["colors"])
    for n, col in sorted(m["colors"].items()):
        if p["colors"] and n in p["colors"]:
            ctx.check(col == p["colors"][n], "colour", lambda: "%s: %s has the colour %s instead of %s" % (what, n, col, p["colors"][n]))
    if not p["colors"]:
        ctx.check(len(set(m["colors"].values())) == len(m["colors"]), "colour", lambda: "%s: tasks share a colour: %s" % (what, m["colors"]))
    if v["mini"]:
        full = axis(ctx, what + ", summary", v["mini"], D)
        ctx.check(abs(full[0] - D[0]) < tol * 2 + .1 / px and abs(full[1] - D[1]) < (D[1] - D[0]) * 1e-3, "summary",
                  lambda: "%s: the summary shows %s" % (what, full))
        check_bars(ctx, what + ", summary", p, D, v["mini"], m["colors"])
        b = v["mini"]["brush"]
        mp = (v["mini"]["right"] - v["mini"]["left"]) / (D[1] - D[0])
        ctx.check(all(isinstance(x, (int, float)) for x in b) and abs(b[0] - (W[0] - D[0]) * mp) < .2 and abs(b[1] - (W[1] - D[0]) * mp) < .2,
                  "brush", lambda: "%s: the brush is at %s, the window %s is at %s" % (what, b, W, [(x - D[0]) * mp for x in W]))
    # the window the user asked for
    old = m["W"]
    free = t0 < m["anim"]
    op = t["op"] if t else None
    near = lambda a, b: abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol
    w0, w1, full = old[1] - old[0], W[1] - W[0], D[1] - D[0]

    def inside(x):
        s = max(D[0] - x[0], 0) or min(D[1] - x[1], 0)
        return [x[0] + s, x[1] + s]

    def expect(ws, why):
        ctx.check(any(near(W, x) for x in ws), "window", lambda: "%s: the window is %s, and %s" % (what, W, " or ".join(
            "%s was %s" % (x, why) for x in ws)))
    if op == "dbl":
        if t1 < t0 + 400:
            m["anim"] = t0 + 400
        elif not free:
            from math import log, floor, ceil
            z = log(full / w0) / log(2)
            zs = [min(4096, max(1, 2 ** ((ceil(z + d) - 1) if t["shift"] else (floor(z + d) + 1)))) for d in (-1e-6, 1e-6)]
            ctx.check(any(abs(w1 - full / q) < 2 * tol for q in zs), "window", lambda: "%s: a double click made %s of the window %s" % (what, W, old))
    elif free:
        if op in ("wheel", "drag"):
            m["anim"] = min(m["anim"], t1)
    elif op == "wheel":
        q = min(4096., max(1., full / w0 * 2 ** (-t["dy"] * .002)))
        ctx.check(abs(w1 - full / q) < 2 * tol, "window", lambda: "%s: the wheel made %s of the window %s, it should be %s wide" % (what, W, old, full / q))
        if (t["x"] * (width - 85) + 70) <= width - 85:
            ctx.check((W[0] >= old[0] - tol and W[1] <= old[1] + tol) if w1 < w0 else (W[0] <= old[0] + tol and W[1] >= old[1] - tol),
                      "window", lambda: "%s: the wheel went from the window %s to %s" % (what, old, W))
    elif op == "drag":
        d = (t["moves"][-1] - t["from"]) * w0 if t["moves"] else 0
        expect([inside([old[0] - d, old[1] - d])], "dragged to")
    elif op == "brush" and "from" in (res or {}):
        mv = t["moves"][-1] if t["moves"] else 0
        f, e0, e1 = res["from"], res["e0"], res["e1"]
        clip = lambda x: min(1., max(0., x))
        if t["part"] == "background":
            e = [clip(f), clip(f + mv)]
        elif t["part"] == "extent":
            mv = min(1 - e1, max(-e0, mv))
            e = [e0 + mv, e1 + mv]
        elif t["part"] == "e":
            e = [e0, clip(e1 + mv)]
        else:
            e = [clip(e0 + mv), e1]
        e.sort()
        if e[1] - e[0] > 1 / 4000.:
            tol += .3 / (width - 85) * full
            expect([[D[0] + full * x for x in e]], "brushed")
    else:
        expect([old], "there before")
    m["W"] = W
    # marks
    info = v["info"]
    check_info(ctx, what, v, width)
    if op == "mark" and res and "px" in res:
        ctx.check(res["prevented"], "menu", lambda: "%s: the browser's own menu opens" % what)
        # an animation may have gone on since
        V = axis(ctx, what, res["chart"], D)
        at = V[0] + res["px"] * (V[1] - V[0]) / (c["right"] - c["left"])
        if not t["alt"]:
            m["B" if t["ctrl"] else "A"] = at
        else:
            # the lane is the one whose middle is nearest
            y = t["y"] * c["bottom"]
            mid = [l[1] for l in c["labels"]]
            half = c["bottom"] - mid[-1]
            lane = [k for k, l in enumerate(mid) if abs(y - l) < half - 2]
            slack = 1.5 / px
            sure = [s for s in p["spans"] if lane and s[3] == lane[0] and s[1] + slack < at < s[2] - slack]
            near_ = [s for s in p["spans"] if s[1] - slack <= at <= s[2] + slack and (not lane or s[3] == lane[0])]
            if sure:
                m["ctx"] = sure[0]
                m["ctxt"] = t0 + 450
            elif near_:
                m["ctx"] = "any"
    for name in "AB":
        marks = [x for x in c["marks"] if x[0] == name]
        if m[name] is None:
            ctx.check(not marks, "marks", lambda: "%s: there is a mark %s" % (what, marks))
            continue
        for k in marks:
            ctx.check(abs(k[4] - k[1]) < 30 and k[5] == k[3] and abs(k[6]) < 25 and abs(k[7] - c["bottom"]) < 25, "marks",
                      lambda: "%s: a mark is drawn as %s" % (what, k))
        x = (m[name] - W[0]) * px
        ok = [k for k in marks if abs(k[1] - x) < .2 and abs(k[2] - x) < .2 and k[3] == {"A": "green", "B": "red"}[name]]
        wd = c["right"] - c["left"]
        if .2 < x < wd - .2:
            ctx.check(len(marks) == 1 and ok, "marks", lambda: "%s: the mark %s of %s should be at pixel %.2f, there is %s" % (what, name, m[name], x, marks))
        elif x < -.2 or x > wd + .2:
            ctx.check(not marks, "marks", lambda: "%s: the mark %s of %s is outside of %s, there is %s" % (what, name, m[name], W, marks))
        said = [float(s[4:]) for s in info if re.match(name + r" = -?\d", s)]
        ctx.check(len(said) == 1 and abs(said[0] - m[name]) < 2e-6 + tol, "marks", lambda: "%s: the texts %s, the mark %s is at %s" % (what, info, name, m[name]))
    delta = [float(s.split("=")[1]) for s in info if re.match(r"A - B = -?\d", s)]
    if m["A"] is not None and m["B"] is not None:
        ctx.check(len(delta) == 1 and abs(abs(delta[0]) - abs(m["A"] - m["B"])) < 3e-6 + 2 * tol, "marks", lambda: "%s: the texts %s, the marks %s"
                  % (what, info, [m["A"], m["B"]]))
    else:
        ctx.check(not delta, "marks", lambda: "%s: the texts are %s" % (what, info))
    # the interval that was asked for
    x = m["ctx"]
    if x is None:
        ctx.check(not c["rects"], "interval", lambda: "%s: an interval is marked at %s" % (what, c["rects"]))
    elif x != "any":
        n, s, e, lane = x
        ctx.check(n in info, "interval", lambda: "%s: the interval asked for is of %s, the texts are %s" % (what, n, info))
        said = [re.match(r"(-?[\d.]+) to (-?[\d.]+) \((-?[\d.]+)\)$", i) for i in info]
        said = [[float(y) for y in i.groups()] for i in said if i]
        ctx.check(len(said) == 1 and all(abs(a - b) < 2e-6 for a, b in zip(said[0], (s, e, e - s))), "interval",
                  lambda: "%s: the interval asked for is %s, the texts are %s" % (what, x, info))
        a, b = (max(s, W[0]) - W[0]) * px, (min(e, W[1]) - W[0]) * px
        if b - a > .2:
            r = c["rects"]
            ctx.check(len(r) == 1 and abs(r[0][0] - a) < .2 and r[0][1] - 2 <= c["labels"][lane][1] <= r[0][1] + r[0][3] + 2 and
                      (len(c["labels"]) == 1 or abs(r[0][3] - abs(c["labels"][1][1] - c["labels"][0][1])) < 5) and
                      (t1 < m["ctxt"] or abs(r[0][2] - (b - a)) < .3), "interval",
                      lambda: "%s: %s is from pixel %.2f to %.2f, what is marked is %s" % (what, x, a, b, r))
        elif b - a < -.2:
            ctx.check(not c["rects"], "interval", lambda: "%s: %s is outside of %s, %s is marked" % (what, x, W, c["rects"]))
    if op == "hover" and res.get("name") is not None:
        ctx.check(res["tip"] == res["name"], "tip", lambda: "%s: the tip of %r says %r" % (what, res["name"], res["tip"]))
        ctx.check(not res["after"], "tip", lambda: "%s: the tip of %r stays" % (what, res["name"]))
    if op == "help":
        ctx.check(res.get("dialogs") == 1 and (res["img"] or "").endswith("/plotter_scripts/EventPlot/EventPlot_help.jpg"), "help",
                  lambda: "%s: the help shows %s" % (what, res))

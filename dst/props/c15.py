"""C15: a published notebook shows each of its plots, whatever was exported before."""
import copy
import json
import os
import re

from dst import analyses as A, core, ops, sched, seams

ID = "C15"
LEVEL = "exploration"
QUICK, THOROUGH = 700, 10000
SHRINK = ("notebooks", "cells", "steps", "pool", "faults")
SIMPLIFY = {"line": [0], "nl": [True], "new": [False]}
RULE = ("A session exports 1-3 notebooks 2-6 times with one or two exporters. The notebooks hold text, other outputs and "
        "0-5 interactive plots made by trappy, some by another version or cut off. Reading a script of the package fails, is interrupted or comes in small "
        "pieces, the user interrupts at a line, scripts of the package are replaced between exports. Every export that "
        "returns must hold, in order, each plot's own markup and data, each library once and each script once, complete, before its "
        "first use, no marker of the publishing machinery, and everything else as it was; and must equal what a new exporter gives. "
        "Non-trivial: an export with a plot followed another export or a fault.")
MEASURE = "(plots in the notebook, exports before, fault, exporter reuse) combinations"
REAL = ["trappy.nbexport", "nbconvert with its templates", "EventPlot, ILinePlot markup"]
STUB = ["system calls on the scripts pass the simulator", "the scripts themselves are generated", "uuid, clock"]
ASSUME = ["the user's own outputs hold no TRAPPY_PUBLISH marker"]


def setup():
    import nbformat.v4 as v4
    import warnings
    warnings.simplefilter("ignore")
    from trappy.nbexport.exporter import HTML
    import pandas as pd
    from trappy.plotter.ILinePlot import ILinePlot
    from trappy.plotter.EventPlot import EventPlot     # noqa
    HTML().from_notebook_node(v4.new_notebook(cells=[v4.new_code_cell("x", outputs=[
        v4.new_output("display_data", data={"text/html": "<p>a</p>"})])]))
    p = ILinePlot(pd.DataFrame({"a": [1., 2.]}, index=[0., 1.]), column=["a"])
    p.view(test=True)


def g_cell(rng):
    r = rng.random()
    if r < .2:
        return ["md", "text %d" % rng.randrange(100)]
    outs = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.choice(["event", "line", "event", "line", "html", "stream", "result", "lines", "cut", "old"])
        outs.append([k, rng.randrange(1000)])
    return ["code", outs]


def g_script(rng):
    lines = []
    for _ in range(rng.choice([0, 1, 2, 5, 30])):
        lines.append(rng.choice(["", "var x%d = {};" % rng.randrange(99), "  // comment", "function f() { return 1; }",
                                 "x" * rng.randrange(60)]))
    return {"lines": lines, "nl": rng.random() < .6}


def g_faults(rng):
    r = rng.random()
    if r < .55:
        return []
    op = rng.choice(["read", "read", "open_r", "stat", "any"])
    kind = {"read": ["EIO", "intr", "mem", "ESTALE"], "open_r": ["EMFILE", "ENOENT", "EACCES", "intr"], "stat": ["EIO"],
            "any": ["EIO", "intr"]}[op]
    return [{"kind": rng.choice(kind), "op": op, "role": "package", "nth": rng.choice([0, 0, 1, 2, 3, 5]),
             "sticky": rng.random() < .3}]


def gen(rng, i, tier):
    nbs = [{"cells": [g_cell(rng) for _ in range(rng.choice([0, 1, 2, 4, 6]))]} for _ in range(rng.choice([1, 2, 3]))]
    steps = []
    for _ in range(rng.randrange(2, 7)):
        st = {"nb": rng.randrange(len(nbs)), "ex": rng.choice([0, 0, 0, 1]), "new": rng.random() < .1,
              "faults": g_faults(rng), "line": 0, "script": None}
        if rng.random() < .15:
            st["line"], st["faults"] = int(2 ** rng.uniform(0, 8)), []
        if rng.random() < .15:
            st["script"] = [rng.choice(["EventPlot", "ILinePlot"]), g_script(rng)]
        steps.append(st)
    return {"notebooks": nbs, "steps": steps, "scripts": {"EventPlot": g_script(rng), "ILinePlot": g_script(rng)},
            "chunks": rng.choice([None, [7], [100, 3]])}


def plot(kind, n):
    if kind == "cut":
        # somebody kept the beginning of an output
        lines = plot("line" if n % 2 else "event", n).split("\n")
        return "\n".join(lines[:n % len(lines)])
    if kind == "old":
        # made by another version, with other versions of its libraries
        return LIB.sub(lambda m: 'TRAPPY_PUBLISH_SOURCE_LIB = "%s"' % m.group(1).replace("://", "://v1."), plot("line" if n % 2 else "event", n))
    if kind == "event":
        from trappy.plotter.EventPlot import EventPlot
        data = {"k": [[0.0, 1.0 + n, 0]], "j": [[.5, 2.0, 1]]}
        return EventPlot(data, ["k", "j"], (0.0, 1.0 + n), num_lanes=2).html()
    import pandas as pd
    from trappy.plotter.ILinePlot import ILinePlot
    p = ILinePlot(pd.DataFrame({"a": [1., float(n)], "b": [n, 2.]}, index=[0., 1. + n]), column=["a", "b"][:1 + n % 2])
    p.view(test=True)
    return A.page_of(p)


MARK = "TRAPPY_PUBLISH"
LIB = re.compile(r'TRAPPY_PUBLISH_SOURCE_LIB = "([^"]*)"')
IMP = re.compile(r'TRAPPY_PUBLISH_IMPORT = "plotter/js/([A-Za-z]*)\.js"')


def published(text, scripts, libs, files):
    """What is to become of one output; libs, files: what the notebook had before it."""
    out, removing = [], False
    for l in text.split("\n"):
        if "TRAPPY_PUBLISH_REMOVE_START" in l:
            removing = True
        elif "TRAPPY_PUBLISH_REMOVE_STOP" in l:
            removing = False
        elif removing or "TRAPPY_PUBLISH_REMOVE_LINE" in l:
            pass
        elif LIB.search(l):
            u = LIB.search(l).group(1)
            if u not in libs:
                libs.append(u)
                out.append('<script src="%s" type="text/javascript" charset="utf-8"></script>' % u)
        elif IMP.search(l):
            f = IMP.search(l).group(1)
            if f not in files:
                files.append(f)
                out += scripts[f]["lines"]
        else:
            out.append(l)
    return "\n".join(out)


def run(case, ctx):
    import nbformat.v4 as v4
    from nbconvert.exporters.html import HTMLExporter
    from trappy.nbexport import exporter as E
    fs = ctx.fs
    pkg = ctx.dir + "/package"
    os.makedirs(pkg + "/plotter/js")
    E.__file__ = pkg + "/nbexport/exporter.py"
    scripts = dict(case["scripts"])

    def install(name):
        s = scripts[name]
        t = "\n".join(s["lines"]) + ("\n" if s["nl"] and s["lines"] else "")
        if s["lines"] and not s["lines"][-1] and not s["nl"]:
            s["lines"] = s["lines"][:-1] + ["// end"]
            t += "// end"
        ops.put(pkg + "/plotter/js/%s.js" % name, t.encode())
    for n in scripts:
        scripts[n] = {"lines": list(scripts[n]["lines"]), "nl": scripts[n]["nl"]}
        install(n)
    nbs = []
    for nb in case["notebooks"]:
        cells, texts = [], []
        for c in nb["cells"]:
            if c[0] == "md":
                cells.append(v4.new_markdown_cell(c[1]))
                continue
            outs = []
            for k, n in c[1]:
                if k in ("event", "line", "cut", "old"):
                    t = plot(k, n)
                    texts.append(("plot", k, t))
                    outs.append(v4.new_output("display_data", data={"text/html": t}))
                elif k in ("html", "lines"):
                    t = "<b>own %d</b>" % n + ("\n\n<i>/* a comment */ %d</i>\n" % n if k == "lines" else "")
                    texts.append(("own", k, t))
                    outs.append(v4.new_output("display_data", data={"text/html": t}))
                elif k == "stream":
                    outs.append(v4.new_output("stream", text="printed %d\n" % n))
                else:
                    outs.append(v4.new_output("execute_result", data={"text/plain": "value %d" % n}))
            cells.append(v4.new_code_cell("code()", outputs=outs))
        for i, c in enumerate(cells):
            c["id"] = "cell-%d" % i
        nbs.append((v4.new_notebook(cells=cells), texts))
    plain = HTMLExporter()
    fs.chunks = case["chunks"]
    exporters = {}
    uses = {0: 0, 1: 0}
    hist = 0

    def export(ex, nb):
        try:
            return ("ok", ex.from_notebook_node(nb)[0])
        except (Exception, KeyboardInterrupt) as e:
            return ("exc", e)
    for st in case["steps"]:
        nb, texts = nbs[st["nb"]]
        if st["script"]:
            scripts[st["script"][0]] = {"lines": list(st["script"][1]["lines"]), "nl": st["script"][1]["nl"]}
            install(st["script"][0])
            ctx.fault("package-upgraded")
        if st["new"] or st["ex"] not in exporters:
            exporters[st["ex"]] = E.HTML()
            uses[st["ex"]] = 0
        ex = exporters[st["ex"]]
        before = json.dumps(nb, sort_keys=True)
        nplots = sum(t[0] == "plot" for t in texts)
        p = fs.current
        p.arm(st["faults"])
        p.fired = []
        li = None
        if st["line"]:
            li = sched.LineInterrupt(core.REPO + "/trappy", st["line"], KeyboardInterrupt)
            with li:
                got = export(ex, nb)
            if li.fired:
                p.fired.append(("intr", "line", "code"))
                ctx.fault("interrupt@line")
        else:
            got = export(ex, nb)
        p.faults = []
        fired = list(p.fired)
        what = "export of notebook %d, %d exports before, faults %s" % (st["nb"], hist, fired)
        ctx.check(json.dumps(nb, sort_keys=True) == before, "notebook-changed", lambda: what)
        ctx.log("export", st["nb"], got[0], ops.digest(got[1]) if got[0] == "ok" else type(got[1]).__name__)
        ctx.covered(min(nplots, 3), min(uses[st["ex"]], 2), fired[:1], got[0], bool(st["script"]))
        uses[st["ex"]] += 1
        ctx.stat("exports")
        if got[0] == "exc":
            ctx.check(fired, "failed", lambda: "%s: %r" % (what, got[1]))
            ctx.stat("explicit errors")
            hist += 1
            continue
        html = got[1]
        ctx.check(MARK not in html, "marker-left", lambda: "%s: %s" % (what, html[html.find(MARK) - 50:][:150]))
        libs, files = [], []
        model = copy.deepcopy(nb)
        for c in model.cells:
            for o in c.get("outputs", ()):
                if o.output_type == "display_data":
                    o.data["text/html"] = published(o.data["text/html"], scripts, libs, files)
        want = plain.from_notebook_node(model)[0]
        ctx.check(html == want, "output", lambda: "%s: %s" % (what, near(html, want)))
        for u in libs:
            ctx.check(html.count('src="%s"' % u) == 1, "library", lambda: "%s: %s is there %d times"
                      % (what, u, html.count('src="%s"' % u)))
        new = export(E.HTML(), nb)
        ctx.check(new[0] == "ok" and new[1] == html, "reused", lambda: "%s differs from that of a new exporter" % what)
        if nplots and hist:
            ctx.nontrivial = True
        hist += 1
    ctx.sim_ns = fs.clock_ns - 1500000000 * 10 ** 9


def near(got, want):
    """Where two documents part."""
    g, w = got.split("\n"), want.split("\n")
    for i, (x, y) in enumerate(zip(g, w)):
        if x != y:
            return "line %d is %r, should be %r" % (i, x[:120], y[:120])
    return "%d lines instead of %d, from %r" % (len(g), len(w), (g + w)[min(len(g), len(w))][:120])

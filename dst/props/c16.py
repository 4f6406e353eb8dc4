"""C16: the Workload Automation readers give what the run recorded, all of it, or an error."""
import csv
import io
import os

from dst import core, ops, sched, seams

ID = "C16"
LEVEL = "exploration"
QUICK, THOROUGH = 2500, 60000
SHRINK = ("steps", "rows", "files", "weights", "faults", "edits", "of")
SIMPLIFY = {"line": [0], "chunks": [None], "spoil": [False], "nl": [True], "crlf": [False], "last_nl": [True],
            "name": [None], "sticky": [False], "nth": [0]}
RULE = ("A case is the output directories of 1-3 Workload Automation runs (results.csv of several workloads, "
        "iterations and metrics; a sysfs dump with weights, trip points and properties, with or without trailing "
        "newlines, some missing) and a history of 3-8 reads: results by directory or file and their charts, parameters from one "
        "long-lived or a new extractor, combinations of earlier results. Listing, opening or reading fails, "
        "is interrupted or comes in small pieces; the run rewrites files between and during the reads; the caller edits what "
        "was returned. A read gives exactly what the files held (before or after a rewrite that happens meanwhile) or "
        "raises; it raises only if something failed. Non-trivial: a read was compared after a fault or an edit.")
MEASURE = "(reader, what it read, fault or rewrite struck, outcome, history) combinations"
REAL = ["trappy.wa.get_results, combine_results, SysfsExtractor", "csv, pandas"]
STUB = ["system calls on the output directories", "the writing Workload Automation"]
ASSUME = ["Workload Automation replaces files whole (rename)"]

BASE = ["integral_cutoff", "k_d", "k_i", "k_po", "k_pu", "policy", "sustainable_power"]
METRICS = [("Overall_Score", 0), ("Overall_Score 1", 0), ("Overall_Score 2", 1), ("Overall_Score_3", 2), ("score", 0),
           ("score_1", 1), ("score 2", 2), ("FPS", 0), ("FPS_1", 1), ("FPS 12", 12), ("Multitask", None),
           ("CPU_integer", None), ("execution_time", None), ("my_score", None), ("average FPS", None), ("fps", None)]
LOADS = ["antutu", "glbenchmark", "egypt 2.5", 'say "x", twice', "geek,bench", u"m\u00f6bius", "caffeine mark_3"]
IDS = ["ondemand", "power_allocator", "interactive-eas", u"g\u00f6v", "a b"]


def gen_value(rng):
    return rng.choice([str(rng.randrange(100000)), str(rng.randrange(-50, 50)), "%.3f" % rng.uniform(0, 500),
                       repr(rng.uniform(0, 1)), "1e3", "0"])


def gen_csv(rng):
    rows = []
    ids = rng.sample(IDS, rng.randrange(1, 4))
    loads = rng.sample(LOADS, rng.randrange(1, 4))
    for _ in range(rng.choice([1, 3, 8, 20, 40])):
        m = rng.randrange(len(METRICS))
        v = gen_value(rng) if METRICS[m][1] is not None else rng.choice([gen_value(rng), "n/a", ""])
        rows.append([rng.randrange(len(IDS)) if rng.random() < .1 else IDS.index(rng.choice(ids)),
                     rng.randrange(1, 12), LOADS.index(rng.choice(loads)), rng.randrange(1, 4), m, v])
    return {"rows": rows, "crlf": rng.random() < .3, "last_nl": rng.random() < .8}


def gen_sysfs(rng):
    names = [n for n in BASE if rng.random() < .7]
    names += ["cdev%d_weight" % n for n in range(rng.randrange(4))]
    names += ["trip_point_%d_temp" % n for n in range(rng.randrange(4))]
    names += [n for n in ("cdev0_trip_point", "temp", "mode", "trip_point_0_type", "uevent") if rng.random() < .3]
    return {"files": [[n, gen_param(rng, n)] for n in names], "isdir": rng.choice([None] * 8 + BASE[:3]),
            "none": rng.random() < .06}


def gen_param(rng, name):
    v = rng.choice(["power_allocator", "step_wise", "user_space\n "]) if name == "policy" else \
        rng.choice([str(rng.randrange(10)), str(rng.randrange(100000)), str(-rng.randrange(1, 90)), "1024",
                    "", "12 34", "disabled", "0", "00"])
    return [v, rng.random() < .8]


def gen_faults(rng, sysfs):
    op = rng.choice(["read", "read", "open_r", "stat"] + ["listdir"] * 2 * sysfs)
    kind = {"read": ["EIO", "EIO", "ESTALE", "mem", "intr"], "open_r": ["EACCES", "EMFILE", "EIO", "ENFILE", "ELOOP"],
            "stat": ["EACCES", "EIO", "ESTALE"], "listdir": ["EACCES", "EIO", "EMFILE", "ENOMEM"]}[op]
    return [{"kind": rng.choice(kind), "op": op, "role": "traces", "nth": rng.choice([0, 0, 1, 2, 3, 5, 9]),
             "sticky": rng.random() < .3}]


def gen(rng, i, tier):
    runs = [{"csv": gen_csv(rng), "sysfs": gen_sysfs(rng)} for _ in range(rng.randrange(1, 4))]
    steps = []
    for _ in range(rng.randrange(3, 9)):
        r = rng.randrange(len(runs))
        k = rng.choice(["results"] * 3 + ["params"] * 4 + ["combine"] * 2)
        st = {"op": k, "run": r, "faults": [], "line": 0, "edits": [], "spoil": rng.random() < .3,
              "new": rng.random() < .5}
        if k == "results":
            st["by"] = rng.choice(["dir", "file", "cwd"])
            st["name"] = rng.choice([None, None, "mine", "x_1"])
        if k == "combine":
            st["of"] = [rng.randrange(4) for _ in range(rng.randrange(1, 4))]
        else:
            if rng.random() < .4:
                st["faults"] = gen_faults(rng, k == "params")
            elif rng.random() < .2:
                st["line"] = int(2 ** rng.uniform(0, 8))
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                # the run goes on: before this read (0) or at one of its operations
                at = rng.choice([0, 0, rng.randrange(1, 14)])
                if k == "results":
                    st["edits"].append([at, "csv", gen_csv(rng)])
                else:
                    n = rng.choice(runs[r]["sysfs"]["files"] or [["policy"]])[0]
                    st["edits"].append([at, "param", n, rng.choice([None, gen_param(rng, n), gen_param(rng, n)])])
        steps.append(st)
    return {"runs": runs, "steps": steps, "chunks": rng.choice([None, [1], [7], [40, 300]]),
            "bufsize": rng.choice([None, 16, 64])}


def csv_text(spec):
    out = io.StringIO()
    w = csv.writer(out, lineterminator="\r\n" if spec["crlf"] else "\n")
    w.writerow(["id", "workload", "iteration", "metric", "value", "units"])
    for i, n, l, it, m, v in spec["rows"]:
        w.writerow(["%s_%d" % (IDS[i], n), LOADS[l], it, METRICS[m][0], v, ""])
    t = out.getvalue()
    return t if spec["last_nl"] else t.rstrip("\r\n")


def csv_model(spec, name):
    """{(workload, run): {number: value}}: what a reader of the results is to see."""
    out = {}
    for i, n, l, it, m, v in spec["rows"]:
        if METRICS[m][1] is None:
            continue
        d = out.setdefault((LOADS[l], name or IDS[i]), {})
        try:
            d.setdefault(METRICS[m][1], int(v))
        except ValueError:
            d.setdefault(METRICS[m][1], float(v))
    return sorted((k[0], k[1], sorted((n, float(x)) for n, x in d.items())) for k, d in out.items())


def seen(df):
    """The same view of a table of results."""
    out = []
    for pos, (load, run) in enumerate(df.columns.tolist()):
        col = df.iloc[:, pos]
        out.append((load, run, sorted((int(n), float(v)) for n, v in zip(df.index.tolist(), col.tolist()) if v == v)))
    return sorted(out)


def value(v, nl):
    """What the parameter of a file of this content is. Trailing newline trimmed."""
    try:
        return int(v)
    except ValueError:
        return v


def same(a, b):
    return type(a) is type(b) and a == b


def charts(ctx, res, what):
    """Bars, titles and limits of a table's charts."""
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    from matplotlib.container import BarContainer
    if not res.columns.is_unique:
        return              # pandas cannot take a benchmark out of these
    plt.close("all")
    before = seen(res)
    loads = list(dict.fromkeys(res.columns.get_level_values(0)))
    for n, load in enumerate(loads):
        one = res[load]
        res.init_fig()
        fig = plt.gcf()
        if n % 2:
            res.plot_results_benchmark(load, title="title %d" % n)
        elif len(loads) == 1:
            res.plot_results()
        else:
            res.plot_results_benchmark(load)
        ax, = fig.axes
        title = "title %d" % n if n % 2 else load.replace("_", " ").title()
        ctx.check(ax.get_title() == title, "chart", lambda: "%s: the chart of %r is titled %r" % (what, load, ax.get_title()))
        got = [[float(b.get_height()) for b in c] for c in ax.containers if isinstance(c, BarContainer)]
        want = [[0. if v != v else float(v) for v in one.iloc[:, k].tolist()] for k in range(one.shape[1])]
        got = [[0. if v != v else v for v in g] for g in got]
        ctx.check(got == want, "chart", lambda: "%s: the chart of %r has bars %s, not %s" % (what, load, got[:3], want[:3]))
        names = [t.get_text() for t in ax.get_legend().get_texts()]
        ctx.check(names == [str(c) for c in one.columns], "chart", lambda: "%s: the chart of %r has legend %s" % (what, load, names))
        ticks = [t.get_text() for t in ax.get_xticklabels()]
        ctx.check(ticks == [str(i) for i in one.index], "chart", lambda: "%s: the chart of %r has ticks %s" % (what, load, ticks))
        res.enlarge_axis(one)
        lo, hi = ax.get_ylim()
        vals = [v for c in want for v in c]
        ctx.check(lo <= min(vals) and max(vals) <= hi, "chart", lambda: "%s: limits %s of bars %s" % (what, (lo, hi), want[:2]))
        plt.close("all")
    ctx.check(seen(res) == before, "chart", lambda: "%s: drawing changes the results" % what)
    ctx.stat("charts", len(loads))


def run(case, ctx):
    import trappy.wa as wa
    fs = ctx.fs
    fs.chunks, fs.bufsize = case["chunks"], case["bufsize"] or 8192
    mk = seams._real["mkdir"]
    dirs, csvs, params, extractors = [], [], [], {}

    def put(path, text):
        ops.put(path + ".new", text.encode())
        seams._real["rename"](path + ".new", path)
    for n, r in enumerate(case["runs"]):
        d = "%s/traces/run%d" % (ctx.dir, n)
        mk(d)
        dirs.append(d)
        put(d + "/results.csv", csv_text(r["csv"]))
        csvs.append(r["csv"])
        p = {}
        t = d
        s = r["sysfs"]
        for sub in ("after", "sys", "devices", "virtual", "thermal", "thermal_zone0"):
            t += "/" + sub
            if not (s["none"] and sub == "thermal"):
                mk(t) if not s["none"] or sub in ("after", "sys", "devices", "virtual") else None
        if not s["none"]:
            for name, (v, nl) in s["files"]:
                put(t + "/" + name, v + "\n" * nl)
                p[name] = (v, nl)
            if s["isdir"] and s["isdir"] not in p:
                mk(t + "/" + s["isdir"])
        params.append(p)
    listed = {}
    kept = []
    fired_before = False
    zone = "/after/sys/devices/virtual/thermal/thermal_zone0"

    def wanted(n):
        return n in BASE or (n.startswith("cdev") and n.endswith("_weight")) or \
            (n.startswith("trip_point_") and n.endswith("_temp"))
    for k, st in enumerate(case["steps"]):
        r = st["run"] % len(dirs)
        d = dirs[r]
        if st["op"] == "combine":
            of = [x for x in st["of"] if x < len(kept)]
            if not of:
                continue
            data = [kept[x][0] for x in of]
            before = [seen(x) for x in data]
            got = wa.combine_results(list(data))
            want = sorted(c for b in before for c in b)
            what = "step %d: combination of results %s" % (k, of)
            ctx.check(seen(got) == want, "combined", lambda: "%s: %s" % (what, ops.diff(seen(got), want)))
            ctx.check([seen(x) for x in data] == before, "argument-changed", what)
            ctx.check(isinstance(got, wa.Result), "type", what)
            ctx.covered("combine", len(of), len(set(of)), len(want) > 3)
            ctx.stat("combined")
            if k % 3 == 0:
                charts(ctx, got, what)
            if st["spoil"]:
                got.iloc[:, :] = -7.
                ctx.check([seen(x) for x in data] == before, "argument-shared", what)
            continue
        # versions of the file(s) this call may see
        live = [(e[0], e) for e in st["edits"]]
        count = [0]
        if st["op"] == "results":
            versions = [csvs[r]]
        else:
            versions = {n: [v] for n, v in params[r].items()}

        def apply(e):
            ctx.fault("rewritten-meanwhile" if e[0] else "rewritten")
            if e[1] == "csv":
                put(d + "/results.csv", csv_text(e[2]))
                csvs[r] = e[2]
                versions.append(e[2]) if e[0] else versions.__setitem__(slice(None), [e[2]])
            elif not case["runs"][r]["sysfs"]["none"]:
                n, v = e[2], tuple(e[3]) if e[3] else None
                path = d + zone + "/" + n
                if n == case["runs"][r]["sysfs"]["isdir"] and n not in params[r]:
                    return
                if v is None:
                    if n in params[r]:
                        seams._real["unlink"](path)
                        del params[r][n]
                else:
                    put(path, v[0] + "\n" * v[1])
                    params[r][n] = v
                if e[0]:
                    versions.setdefault(n, [None]).append(v)
                else:
                    versions[n] = [v]
        for at, e in live:
            if not at:
                apply(e)
        todo = [x for x in live if x[0]]

        def on_op(name, path):
            if path.startswith(d):
                count[0] += 1
                for x in [x for x in todo if x[0] == count[0]]:
                    todo.remove(x)
                    apply(x[1])
        p = fs.current
        fs.on_op = on_op
        if st["op"] == "results":
            path = d if st["by"] == "dir" else d + "/results.csv"
            if st["by"] == "cwd":
                os.chdir(d)

            def call():
                return wa.get_results(name=st["name"]) if st["by"] == "cwd" else wa.get_results(path, st["name"])
        else:
            def call():
                if st["new"] or r not in extractors:
                    e = wa.SysfsExtractor(d)
                    extractors[r] = e
                    listed[r] = None
                return extractors[r].get_parameters()
            fresh = st["new"] or r not in extractors
            if fresh:
                at_listing = {n for n, vs in versions.items()
                              if vs[0] is not None and not any(e[2] == n for _, e in todo)}
        p.arm(st["faults"])
        p.fired = []
        try:
            if st["line"]:
                li = sched.LineInterrupt(core.REPO + "/trappy", st["line"], KeyboardInterrupt)
                with li:
                    got = ("ok", call())
                if li.fired:
                    p.fired.append(("intr", "line", "code"))
            else:
                got = ("ok", call())
        except (Exception, KeyboardInterrupt) as e:
            got = ("exc", e)
            if st["line"] and li.fired:
                p.fired.append(("intr", "line", "code"))
                ctx.fault("interrupt@line")
        fs.on_op = None
        p.faults = []
        os.chdir(ctx.dir + "/home")
        fired = list(p.fired)
        what = "step %d: %s of run %d, faults %s" % (k, st["op"], r, fired)
        ctx.log(what, got[0])
        ctx.covered(st["op"], st.get("by"), st.get("name"), fired[:1], got[0], len(live) - len(todo), fired_before,
                    st["op"] == "params" and fresh)
        if got[0] == "exc":
            legit = bool(fired)
            if st["op"] == "results" and any(not csv_model(v, st["name"]) for v in versions):
                legit = True            # nothing to make a table of
            ctx.check(legit, "failed", lambda: "%s: %r" % (what, got[1]))
            ctx.stat("explicit errors")
            if st["op"] == "params" and fresh:
                extractors.pop(r, None)
        elif st["op"] == "results":
            views = [csv_model(v, st["name"]) for v in versions]
            view = seen(got[1])
            ctx.check(view in views, "results", lambda: "%s: %s" % (what, ops.diff(view, views[0])))
            ctx.check(isinstance(got[1], wa.Result), "type", what)
            kept.append([got[1]])
            ctx.stat("results read")
            if (k + r) % 4 == 1:
                charts(ctx, got[1], what)
            if fired_before or k:
                ctx.nontrivial = True
            if st["spoil"]:
                x = wa.get_results(d + "/results.csv", st["name"]) if csv_model(csvs[r], st["name"]) else None
                if x is not None:
                    x.iloc[:, :] = -1.
                    y = wa.get_results(d + "/results.csv", st["name"])
                    ctx.check(seen(y) == csv_model(csvs[r], st["name"]), "shared", what)
        else:
            if fresh:
                listed[r] = at_listing
            ret = got[1]
            for n in sorted(set(ret) | set(versions)):
                if not wanted(n):
                    ctx.check(n not in ret, "parameter", lambda: "%s: %s is not asked for" % (what, n))
                    continue
                if n not in BASE and n not in listed[r] and n not in ret:
                    continue            # came after the extractor looked
                vs = versions.get(n, [None])
                ok = any((v is None and n not in ret) or
                         (v is not None and n in ret and same(ret[n], value(*v))) for v in vs)
                ctx.check(ok, "parameter", lambda: "%s: %s is %r, the file held %s" %
                          (what, n, ret.get(n, "absent"), vs))
            ctx.stat("parameters read")
            if fired_before or k:
                ctx.nontrivial = True
            if st["spoil"]:
                ret.clear()
                ret["policy"] = "spoilt"
        fired_before = fired_before or bool(fired)
    ctx.sim_ns = fs.clock_ns - 1500000000 * 10 ** 9

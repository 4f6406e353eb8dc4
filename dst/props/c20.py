"""C20: the summary of runs shows what each run's governor was recorded to do, under the run's name."""
import errno
import os
import re

from dst import core, ops

ID = "C20"
LEVEL = "exploration"
QUICK, THOROUGH = 600, 20000
SHRINK = ("events", "runs", "again", "weights")
SIMPLIFY = {"tz": [None], "fault": [None], "direct": [True], "norm": [False], "cached": [False]}
RULE = ("A simulated power allocator runs on a machine with 1-3 clusters, often of different sizes, 0-9 further cooling "
        "devices, 1-2 thermal zones, with or without a GPU: zones, clusters, GPU and controller report each in its own time; the "
        "trace buffer loses single events, stretches, or everything of a kind or a cluster. One to three such "
        "recordings, with the weights of the actors in their dumps of sysfs or not, are compared (compare_runs, or each plot "
        "by itself), freshly parsed or from the cache, with a zone or without; reads of the dump may fail. Each line of each axis of "
        "each figure is compared with a model: the value a "
        "record has at its stamp, held until the next; histograms with counts of the model's values. "
        "Non-trivial: several clusters, runs or zones, or events lost.")
MEASURE = "(clusters, actors, zones, what was lost, runs, read fault, outcome) combinations"
REAL = ["loading with scope thermal", "compare_runs, plot_utils, FTrace.plot_*", "CpuInPower, CpuOutPower, Devfreq*Power, "
        "Thermal, ThermalGovernor, PIDController", "SysfsExtractor", "pandas, matplotlib (Agg)"]
STUB = ["the traced machine, its governor and buffers", "system calls pass the simulator", "IPython display"]
ASSUME = ["a run of which a plot has nothing to show, or a cluster of the map nothing was recorded, may be refused with an error"]

MASKS = [["00000000,0000000f", "00000000,000000f0"], ["0000000f", "00000030"], ["00000000,00000039", "00000000,00000006"],
         ["00000001", "0000000e", "000000f0"], ["0000000f"]]
LABELS = ["A53", "A57", "big"]
KINDS = ["temp", "inp", "ginp", "pid", "outp", "goutp", "gov"]


def gen_run(rng, plat):
    t = rng.randrange(1, 5 * 10 ** 9)
    evs = []
    temp = dict((z, rng.randrange(20000, 90000)) for z in plat["zones"])
    loss = rng.choice([0, 0, 0, .05, .3])
    gone = rng.choice([None] * 7 + KINDS[:1] * 2 + KINDS + ["cluster"])
    half = rng.choice([None, None, None] + plat["masks"])
    periods = rng.choice([1, 2, 3, 8])
    for n in range(periods):
        t += rng.choice([1000, 100000, 100013, 250000])
        for z in plat["zones"]:
            temp[z] += rng.choice([0, 1, 113, -50, 2000, -1999])
            batch = [["temp", z, temp[z]]]
            for m, c in zip(plat["masks"], plat["cpus"]):
                batch.append(["inp", m, rng.choice([450000, 1100000, 1900000, 533333]), [rng.randrange(101) for _ in range(c)]])
                batch.append(["outp", m, rng.choice([450000, 1100000, 1900000, 533333]), rng.randrange(4)])
            if plat["gpu"]:
                batch.append(["ginp", rng.choice([177000000, 525000000, 600000000]), rng.randrange(101)])
                batch.append(["goutp", rng.choice([177000000, 525000000, 600000000]), rng.randrange(101)])
            batch.append(["pid", z, [rng.randrange(-5000, 5000) for _ in range(4)]])
            batch.append(["gov", z, [rng.randrange(4000) for _ in range(plat["actors"])],
                          [rng.randrange(4000) for _ in range(plat["actors"])], temp[z], rng.randrange(-5000, 5000)])
            if rng.random() < .5:
                rng.shuffle(batch)
            for e in batch:
                t += rng.choice([1, 2, 17, 300])
                if rng.random() < loss or e[0] == gone or (gone == "cluster" and plat["masks"][-1] in e) or \
                        (half in e and n < periods // 2):
                    continue
                evs.append([t] + e)
    return {"events": evs, "name": rng.choice(["", "new", "old", "run 1", "run 1"]),
            "weights": [[k, rng.choice([0, 256, 512, 1024, 1500])] for k in range(plat["actors"])] if rng.random() < .5 else []}


def gen(rng, i, tier):
    masks = rng.choice(MASKS)
    plat = {"masks": masks, "cpus": [bin(int(m.replace(",", ""), 16)).count("1") for m in masks],
            "gpu": rng.random() < .6, "zones": rng.choice([[0], [0], [0, 1], [1, 0], [2]])}
    plat["actors"] = rng.choice([len(masks) + plat["gpu"], len(masks) + plat["gpu"], 3, 11, 12])
    runs = [gen_run(rng, plat) for _ in range(rng.choice([1, 1, 2, 3]))]
    fault = None
    if rng.random() < .2:
        fault = {"kind": rng.choice(["EIO", "EACCES", "ENOMEM"]), "op": rng.choice(["open_r", "read", "any"]), "role": "sysfs",
                 "nth": rng.randrange(6)}
    return {"plat": plat, "runs": runs, "tz": rng.choice([None, None, 0, 0, 1]), "fault": fault, "direct": rng.random() < .5,
            "norm": True, "cached": rng.random() < .3, "solo": rng.random() < .3,
            "size": rng.choice([{"width": 4, "height": 3}, {"width": 4, "height": 3}, {}, {"width": 9}, {"height": 3}]),
            "wrong": rng.choice([None, None, None, "order", "labels"])}


def text(case, run):
    out = ["version = 6", "cpus=8"]
    for e in run["events"]:
        t, k = e[0], e[1]
        if k == "temp":
            s = "thermal_temperature:  thermal_zone=soc_thermal id=%d temp_prev=%d temp=%d" % (e[2], e[3] - 8, e[3])
        elif k == "inp":
            s = "thermal_power_cpu_get_power: cpus=%s freq=%d load={%s} dynamic_power=250 static_power=178" % (
                e[2], e[3], " ".join(map(str, e[4])))
        elif k == "outp":
            s = "thermal_power_cpu_limit: cpus=%s freq=%d cdev_state=%d power=1344" % (e[2], e[3], e[4])
        elif k == "ginp":
            s = "thermal_power_devfreq_get_power: type=devfreq freq=%d load=%d dynamic_power=1288 static_power=210" % (e[2], e[3])
        elif k == "goutp":
            s = "thermal_power_devfreq_limit: type=devfreq freq=%d cdev_state=1 power=%d" % (e[2], e[3])
        elif k == "pid":
            s = "thermal_power_allocator_pid: thermal_zone_id=%d err=3225 err_integral=0 p=%d i=%d d=%d output=%d" % tuple(
                [e[2]] + e[3])
        else:
            s = ("thermal_power_allocator: thermal_zone_id=%d req_power={%s} total_req_power=%d granted_power={%s} "
                 "total_granted_power=%d power_range=3888 max_allocatable_power=3888 current_temperature=%d "
                 "delta_temperature=%d" % (e[2], " ".join(map(str, e[3])), sum(e[3]), " ".join(map(str, e[4])), sum(e[4]), e[5], e[6]))
        out.append("     kworker/4:1-51    [004]  %d.%06d: %s" % (t // 10 ** 6, t % 10 ** 6, s))
    return ("\n".join(out) + "\n").encode()


# ------------------------------------------------------------------ the model
class Model(object):
    """What a run's recording says, with stamps relative to its first event."""

    def __init__(self, case, run):
        self.case, self.run = case, run
        ev = run["events"]
        base = ev[0][0] if ev and case["norm"] else 0
        self.ev = [[(e[0] / 1e6) - (base / 1e6)] + e[1:] for e in ev]

    def of(self, kind):
        return [e for e in self.ev if e[1] == kind]

    def held(self, *series):
        """[(label, [(t, v)])] -> the same on the union of stamps, each value held."""
        stamps = sorted(set(t for _, pts in series for t, _ in pts))
        out = {}
        for label, pts in series:
            d = dict(pts)
            now, got = None, []
            for t in stamps:
                now = d.get(t, now)
                got.append((t, now))
            out[label] = got
        return out

    def clusters(self, kind, value):
        """Series of each cluster, on the stamps of all clusters."""
        labels = dict(zip(self.case["plat"]["masks"], LABELS))
        got = {}
        for e in self.of(kind):
            got.setdefault(labels[e[2]], []).append((e[0], value(e)))
        return self.held(*sorted(got.items()))

    def loads(self, normal):
        top = {}
        for e in self.of("inp"):
            top[e[2]] = max(top.get(e[2], 0), e[3])
        got = self.clusters("inp", lambda e: float(sum(e[4])) * e[3] / top[e[2]] / len(e[4]) if normal else sum(e[4]))
        g = self.of("ginp")
        if g:
            gmax = max(e[2] for e in g)
            gpu = [(e[0], e[3] * float(e[2]) / gmax if normal else e[3]) for e in g]
            got = self.held(*([(l, [p for p in pts if p[1] is not None]) for l, pts in sorted(got.items())] + [("GPU", gpu)]))
        return got

    def freqs(self, kind):
        got = self.clusters(kind, lambda e: e[3] / 1000.)
        return got

    def allfreqs(self):
        out = []
        fin, fout = self.freqs("inp"), self.freqs("outp")
        for l in LABELS[:len(self.case["plat"]["masks"])]:
            out.append((l, self.held((l + "_freq_in", strip(fin.get(l, []))), (l + "_freq_out", strip(fout.get(l, []))))))
            # a cluster's stamps are those of every cluster's records
            stamps = sorted(set(t for t, _ in fin.get(l, []) + fout.get(l, [])))
            out[-1] = (l, dict((k, hold_at(pts, stamps)) for k, pts in out[-1][1].items()))
        if self.gpu():
            out.append(("GPU", self.held(("gpu_freq_in", [(e[0], e[2] / 1e6) for e in self.of("ginp")]),
                                         ("gpu_freq_out", [(e[0], e[2] / 1e6) for e in self.of("goutp")]))))
        return out

    def gpu(self):
        return self.of("ginp") and self.of("goutp")

    def hist(self, kind):
        """{actor: values} of the frequencies of a direction."""
        cpu = self.freqs(kind)
        s = [(l, strip(pts)) for l, pts in sorted(cpu.items())]
        if self.gpu():
            s.append(("freq", [(e[0], e[2] / 1e6) for e in self.of("ginp" if kind == "inp" else "goutp")]))
        return dict((l, [v for _, v in pts if v is not None]) for l, pts in self.held(*s).items())

    def complete(self, label=True):
        """Every plot but those of temperature and GPU has something to show."""
        have = set(e[2] for e in self.of("inp"))
        have2 = set(e[2] for e in self.of("outp"))
        return have == have2 == set(self.case["plat"]["masks"]) and self.of("pid") and self.of("gov")


def strip(pts):
    return [p for p in pts if p[1] is not None]


def hold_at(pts, stamps):
    now, d, out = None, dict(pts), []
    for t in stamps:
        now = d.get(t, now)
        out.append((t, now))
    return out


def run(case, ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import numpy as np
    import trappy
    from trappy import plot_utils
    import IPython.display
    plat = case["plat"]
    fs = ctx.fs
    shown = []
    IPython.display.display = lambda h: shown.append(h.data)
    labels = LABELS[:len(plat["masks"])]
    map_label = dict(zip(plat["masks"], labels))
    actors = ["actor%d" % k for k in range(plat["actors"])]
    models, dirs = [], []
    for k, r in enumerate(case["runs"]):
        if not r["events"]:
            return
        d = "%s/run%d" % (ctx.dir, k)
        os.makedirs(d)
        ops.put(d + "/trace.txt", text(case, r))
        if r["weights"]:
            z = d + "/after/sys/devices/virtual/thermal/thermal_zone0"
            os.makedirs(z)
            for n, w in r["weights"]:
                ops.put("%s/cdev%d_weight" % (z, n), b"%d\n" % w)
            ops.put(z + "/policy", b"power_allocator\n")
        dirs.append(d)
        models.append(Model(case, r))
        if case["cached"]:
            trappy.FTrace(d, scope="thermal")
    runs = case["runs"]
    fs.role = lambda p, old=fs.role: "sysfs" if "/after/" in p else old(p)
    me = fs.current
    n = len(runs)
    names = [r["name"] for r in runs]

    def title(name, what):
        return (name + " - " if name else "") + what

    def close(a, b):
        return abs(a - b) <= 1e-6 + 1e-9 * abs(b)

    def lines(ax, want, what):
        """want: {label: [(t, v or None)]}"""
        got = dict((l.get_label(), list(zip(l.get_xdata(), l.get_ydata()))) for l in ax.lines)
        ctx.check(len(got) == len(ax.lines) and sorted(got) == sorted(want), "lines", "%s: lines %s instead of %s" % (
            what, sorted(l.get_label() for l in ax.lines), sorted(want)))
        for l, pts in want.items():
            g = [(t, v) for t, v in got[l] if v == v]
            w = strip(pts)
            ctx.check(len(g) == len(w) and all(close(a[0], b[0]) and close(a[1], b[1]) for a, b in zip(g, w)), "values",
                      lambda: "%s, line %r: %s instead of %s" % (what, l, g[:6], w[:6]))

    def visible(ax, what):
        (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
        dx, dy = 1e-9 * max(1, abs(x0), abs(x1)), 1e-9 * max(1, abs(y0), abs(y1))
        out = [(l.get_label(), float(x), float(y)) for l in ax.lines for x, y in zip(l.get_xdata(), l.get_ydata())
               if y == y and not (x0 - dx <= x <= x1 + dx and y0 - dy <= y <= y1 + dy)]
        ctx.check(not out, "visible", lambda: "%s: %s are outside of %s, %s" % (what, out[:3], (x0, x1), (y0, y1)))
        out = [(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches if p.get_height() and
               not (x0 - dx <= p.get_x() + p.get_width() and p.get_x() <= x1 + dx and p.get_height() <= y1)]
        ctx.check(not out, "visible", lambda: "%s: bars %s are outside of %s, %s" % (what, out[:3], (x0, x1), (y0, y1)))

    def figure(what, nrows, ncols):
        nums = plt.get_fignums()
        ctx.check(nums, "figures", "%s: no figure" % what)
        fig = plt.figure(nums[0])
        ctx.check(len(fig.axes) == nrows * ncols, "figures", "%s: %d axes instead of %d x %d" % (what, len(fig.axes), nrows, ncols))
        axes = [[fig.axes[r * ncols + c] for r in range(nrows)] for c in range(ncols)]
        for c in range(ncols):
            for r in range(nrows):
                s = axes[c][r].get_subplotspec()
                assert (s.rowspan.start, s.colspan.start) == (r, c)
                visible(axes[c][r], what)
        plt.close(nums[0])
        return axes

    def is_called(ax, want, what):
        ctx.check(ax.get_title() == want, "title", "%s: is titled %r, not %r" % (what, ax.get_title(), want))

    def hist(ax, values, unit, bins, want, what):
        counts = [p.get_height() for p in ax.patches]
        exp = [float(x) for x in np.histogram(values, bins)[0]]
        ctx.check(sum(counts) == len(values) and (counts == exp or len(set(values)) > 1 and sum(abs(a - b) for a, b in zip(counts, exp)) <= 2),
                  "histogram", "%s: counts %s instead of %s" % (what, counts, exp))
        m = re.match(r"(.*) \(mean = (-?[0-9.]+)(\w+), std = (nan|[0-9.]+)\)$", ax.get_title())
        std = np.std(values, ddof=1) if len(values) > 1 else float("nan")
        ctx.check(m and m.group(1) == want and m.group(3) == unit and abs(float(m.group(2)) - np.mean(values)) < .0051 and
                  (abs(float(m.group(4)) - std) < .0051 or std != std and m.group(4) == "nan"), "title",
                  "%s: is titled %r; mean %s %s, deviation %s" % (what, ax.get_title(), np.mean(values), unit, std))

    def in_zone(pts, tz):
        return [e for e in pts if tz is None or e[2] == tz]

    # what each plot shows
    def temperature(tz):
        want = []
        for nm, m in zip(names, models):
            gov = in_zone(m.of("gov"), tz)
            control = [(e[0], (e[5] + e[6]) / 1000.) for e in gov]
            if in_zone(m.of("temp"), tz):
                want.append((title(nm, "Temperature"), [(e[0], e[3] / 1000.) for e in in_zone(m.of("temp"), tz)]))
                if m.of("gov"):
                    want.append((title(nm, "Control"), control))
            else:
                want.append((title(nm, "Temperature"), [(e[0], e[5] / 1000.) for e in gov]))
                want.append(("control temperature", control))
        axes = figure("temperature", 1, 1)
        ax = axes[0][0]
        is_called(ax, "Temperature", "temperature")
        got = [(l.get_label(), [(t, v) for t, v in zip(l.get_xdata(), l.get_ydata()) if v == v]) for l in ax.lines]
        want = [w for w in want if w[1]]
        got = [g for g in got if g[1]]
        ok = [g[0] for g in got] == [w[0] for w in want] and all(
            len(g[1]) == len(w[1]) and all(close(a[0], b[0]) and close(a[1], b[1]) for a, b in zip(g[1], w[1]))
            for g, w in zip(got, want))
        ctx.check(ok, "temperature", lambda: "temperature of zone %s shows %s instead of %s" % (
            tz, [(g[0], g[1][:4]) for g in got], [(w[0], w[1][:4]) for w in want]))

    def load():
        axes = figure("load", 2, n)
        for ax, nm, m in zip(axes, names, models):
            for a, normal, t in ((ax[0], False, "Utilization"), (ax[1], True, "Normalized Utilization")):
                is_called(a, title(nm, t), "load")
                lines(a, m.loads(normal), "%s of %r" % (t, nm))

    def rows():
        return len(labels) + any(m.of("ginp") for m in models)

    def allfreqs():
        axes = figure("allfreqs", rows(), n)
        for ax, nm, m in zip(axes, names, models):
            for a, (l, want) in zip(ax, m.allfreqs()):
                is_called(a, title(nm, "allfreqs " + l), "allfreqs")
                lines(a, want, "allfreqs %s of %r" % (l, nm))

    def controller():
        axes = figure("controller", 1, n)
        for ax, nm, m in zip(axes, names, models):
            is_called(ax[0], title(nm, "PID"), "controller")
            lines(ax[0], dict((k, [(e[0], e[3][j]) for e in m.of("pid")]) for k, j in
                              (("p", 0), ("i", 1), ("d", 2), ("output", 3))), "controller of %r" % nm)

    def powers(what, j):
        axes = figure(what, 1, n)
        for ax, nm, m in zip(axes, names, models):
            is_called(ax[0], title(nm, what), what)
            lines(ax[0], dict((a, [(e[0], e[j][k]) for e in m.of("gov")]) for k, a in enumerate(actors)), "%s of %r" % (what, nm))

    def inputs():
        powers("Input Power", 3)
        if any(r["weights"] for r in runs):
            axes = figure("Weighted Input Power", 1, n)
            for ax, nm, m, r in zip(axes, names, models, runs):
                if r["weights"]:
                    is_called(ax[0], title(nm, "Weighted Input Power"), "weighted")
                lines(ax[0], dict((actors[k], [(e[0], e[3][k] * w / 1024.) for e in m.of("gov")]) for k, w in r["weights"]),
                      "Weighted Input Power of %r" % nm)

    def freq_hists():
        axes = figure("freq hists", 2 * rows(), n)
        for ax, nm, m in zip(axes, names, models):
            for d, part in (("out", ax[:rows()]), ("in", ax[rows():])):
                want = m.hist("inp" if d == "in" else "outp")
                order = [l for l in labels if l in want] + [x for x in want if x == "freq"]
                seen = {}
                for a in part[:len(order)]:
                    mm = re.match(r"(?:.* - )?freq \w+ (\w+) \(", a.get_title())
                    ctx.check(mm and mm.group(1) in want and mm.group(1) not in seen, "histogram",
                              "freq hists of %r: titled %r" % (nm, a.get_title()))
                    seen[mm.group(1)] = a
                for l, a in seen.items():
                    hist(a, want[l], "MHz", 20, title(nm, "freq %s %s" % (d, l)), "histogram %s %s of %r" % (d, l, nm))

    def temp_hists():
        have = [(nm, m) for nm, m in zip(names, models) if m.of("temp")]
        if not have:
            ctx.check(not plt.get_fignums(), "figures", "temperatures of nothing are plotted")
            return
        axes = figure("temperature hist", 1, len(have))
        for ax, (nm, m) in zip(axes, have):
            hist(ax[0], [e[3] / 1000. for e in m.of("temp")], "C", 30, title(nm, "Temperature"), "temperatures of %r" % nm)

    def solo(t, nm, m, attempt):
        """Each plot of one trace, in a figure of its own."""
        def one(what, want_title, want):
            axes = figure(what, 1, 1)
            is_called(axes[0][0], want_title, what)
            lines(axes[0][0], want, "%s of %r" % (what, nm))
        temps, gov = in_zone(m.of("temp"), tz), in_zone(m.of("gov"), tz)
        control = [(e[0], (e[5] + e[6]) / 1000.) for e in gov]
        if attempt(lambda: t.thermal.plot_temperature(title=nm, tz_id=tz, legend_label=nm, **kw), temps, "temperature"):
            one("temperature", title(nm, "Temperature"), {title(nm, "Temperature"): [(e[0], e[3] / 1000.) for e in temps]})
        if attempt(lambda: t.thermal_governor.plot_temperature(title=nm, tz_id=tz, legend_label=nm, **kw), gov, "temperature"):
            one("governor's temperature", title(nm, "Temperature"), {
                title(nm, "Temperature"): [(e[0], e[5] / 1000.) for e in gov], "control temperature": control})
        gov = m.of("gov")
        if attempt(lambda: t.thermal_governor.plot_input_power(actors, title=nm, **kw), gov, "input power"):
            one("input power", title(nm, "Input Power"), dict((a, [(e[0], e[3][k]) for e in gov]) for k, a in enumerate(actors)))
        if attempt(lambda: t.thermal_governor.plot_output_power(actors, title=nm, **kw), gov, "output power"):
            one("output power", title(nm, "Output Power"), dict((a, [(e[0], e[4][k]) for e in gov]) for k, a in enumerate(actors)))
        weights = [(a, 256 * k) for k, a in enumerate(actors)]
        if attempt(lambda: t.thermal_governor.plot_weighted_input_power(weights, title=nm, **kw), gov, "weighted"):
            one("weighted", title(nm, "Weighted Input Power"), dict(
                (a, [(e[0], e[3][k] * k / 4.) for e in gov]) for k, a in enumerate(actors)))
        if attempt(lambda: t.pid_controller.plot_controller(title=nm, **kw), m.of("pid"), "controller"):
            one("controller", title(nm, "PID"), dict((k, [(e[0], e[3][j]) for e in m.of("pid")]) for k, j in
                                                     (("p", 0), ("i", 1), ("d", 2), ("output", 3))))
        ok = m.complete()
        if attempt(lambda: t.plot_load(map_label, title=nm, **kw), ok, "load"):
            one("load", title(nm, "Utilization"), m.loads(False))
        if attempt(lambda: t.plot_normalized_load(map_label, title=nm, **kw), ok, "normalized load"):
            one("normalized load", title(nm, "Normalized Utilization"), m.loads(True))

    tz = case["tz"]
    complete = all(m.complete() for m in models)
    zoned = all(in_zone(m.of("temp"), tz) or in_zone(m.of("gov"), tz) for m in models)
    kw = case["size"]
    what = "%d runs, %d clusters, zones %s%s" % (n, len(labels), plat["zones"], ", gpu" if plat["gpu"] else "")
    if case["fault"]:
        me.arm([case["fault"]])
    me.fired = []

    def attempt(fn, ok, what):
        plt.close("all")
        fired = len(me.fired)
        try:
            fn()
        except (OSError, MemoryError) as e:
            if len(me.fired) == fired:
                raise
            ctx.stat("refused: unreadable")
            return False
        except Exception as e:
            if ok:
                raise
            ctx.stat("refused: nothing to show")
            return False
        ctx.check(len(me.fired) == fired, "swallowed", lambda: "%s: %s was ignored" % (what, me.fired))
        return True
    outcome = []
    if not case["direct"]:
        z = {} if tz is None else {"tz_id": tz}
        args = [(nm, d) for nm, d in zip(names, dirs)]
        if case["wrong"]:
            # what is no request is refused
            bad = (tuple(actors), map_label) if case["wrong"] == "order" else (actors, sorted(map_label.items()))
            try:
                trappy.compare_runs(*(bad + (args,)))
            except TypeError:
                pass
            else:
                ctx.check(False, "accepted", "compare_runs takes %r and %r" % bad)

        def summary():
            if n == 1 and case["solo"]:
                trappy.summary_plots(actors, map_label, path=dirs[0], title=names[0], **dict(kw, **z))
            else:
                trappy.compare_runs(actors, map_label, args, **dict(kw, **z))
        if attempt(summary, complete and zoned, "compare_runs"):
            outcome.append("all")
            for part in (lambda: temperature(tz), load, allfreqs, controller, inputs, lambda: powers("Output Power", 4), freq_hists,
                         temp_hists):
                part()
            ctx.check(not plt.get_fignums(), "figures", "compare_runs drew more figures than there are plots")
            ctx.check(len(shown) == sum(1 for r in runs if r["weights"]), "parameters", "%d tables of parameters shown" % len(shown))
            tables = [r for r in runs if r["weights"]]
            for html, r in zip(shown, tables):
                cells = re.findall(r"<t[hd]>(.*?)</t[hd]>", html)
                want = sorted([("cdev%d_weight" % k, str(w)) for k, w in r["weights"]] + [("policy", "power_allocator")])
                ctx.check(cells == [x for p in want for x in p], "parameters", "parameters %s shown instead of %s" % (cells, want))
    else:
        traces = [trappy.FTrace(d, name=nm, scope="thermal", normalize_time=case["norm"]) for nm, d in zip(names, dirs)]
        every_pid = all(m.of("pid") for m in models)
        every_gov = all(m.of("gov") for m in models)
        for nm, fn, check, ok in (
                ("temperature", lambda: plot_utils.plot_temperature(traces, tz_id=tz, **kw), lambda: temperature(tz), zoned),
                ("load", lambda: plot_utils.plot_load(traces, map_label, **kw), load, complete),
                ("allfreqs", lambda: plot_utils.plot_allfreqs(traces, map_label, **kw), allfreqs, complete),
                ("controller", lambda: plot_utils.plot_controller(traces, **kw), controller, every_pid),
                ("input", lambda: plot_utils.plot_input_power(traces, actors, **kw), inputs, every_gov),
                ("output", lambda: plot_utils.plot_output_power(traces, actors, **kw), lambda: powers("Output Power", 4), every_gov),
                ("hists", lambda: plot_utils.plot_freq_hists(traces, map_label), freq_hists, complete),
                ("temperatures", lambda: plot_utils.plot_temperature_hist(traces), temp_hists, True)):
            if attempt(fn, ok, nm):
                outcome.append(nm)
                check()
        if case["solo"]:
            for t, nm, m in zip(traces, names, models):
                solo(t, nm, m, attempt)
    plt.close("all")
    ctx.stat("comparisons complete" if complete else "comparisons with gaps")
    ctx.covered(tuple(plat["cpus"]), plat["actors"] > 10, plat["gpu"], len(plat["zones"]), n, bool(me.fired), tuple(outcome),
                tuple(sorted(set(KINDS) - set(e[1] for r in runs for e in r["events"]))))
    ctx.log(what, outcome, [m.ev[:3] for m in models])
    ctx.nontrivial = len(outcome) > 0 and (len(labels) > 1 or n > 1)
    for r in runs:
        if len(set(e[1] for e in r["events"])) < len(KINDS):
            ctx.fault("events-lost")
    ctx.sim_ns = sum(r["events"][-1][0] - r["events"][0][0] for r in runs) * 1000

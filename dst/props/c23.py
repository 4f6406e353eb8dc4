"""C23: a trace shows exactly the events of the window asked for, and what is added to it."""
import copy

from dst import ops, world as W
from dst.props import c02

ID = "C23"
LEVEL = "exploration"
QUICK, THOROUGH = 2500, 40000
SHRINK = ("items", "loads", "adds")
SIMPLIFY = {"cached": [False], "norm": [False]}
RULE = ("A case is a simulated machine whose per-CPU clocks tie, drift, step back and jump, and 1-5 loads of its trace in a row, "
        "parsed or through the cache, each with a relative and/or an absolute window whose ends are the stamp of an event, a time "
        "read from a table of an earlier load, between events, or outside the trace. The events in each table, their fields and times, "
        "the base, the end, the duration and the filters are compared with what the machine recorded in that window; then tables of "
        "other tools are added. Non-trivial: a window kept some and left out other events.")
MEASURE = "(format, clock faults, kinds of ends, cached, normalised, load number) combinations"
REAL = ["trappy.FTrace/SysTrace, BareTrace, parser classes, cache, grammar", "pandas"]
STUB = ["the traced machine and its clocks", "file system calls (pass-through)"]
ASSUME = ["stamps below 10^5 s: above that, tens of ties do not fit into half a nanosecond"]


def g_end(rng, n):
    r = rng.random()
    return None if r < .12 else [rng.choice(["stamp", "stamp", "time", "time", "mid"]), rng.randrange(n)] if r < .9 else \
        [rng.choice(["zero", "beyond"]), 0]


def gen(rng, i, tier):
    while True:
        case = c02.gen(rng, i, tier)
        w = case["world"]
        evs = [it for it in w["items"] if it[0] == "e"]
        if evs:
            break
    unit = 1000 if w["fmt"] in ("us", "sys") else 1
    lo = min(it[1] for it in evs)
    base = (rng.choice([1, 10**3, 10**4, 9 * 10**4]) * 10**9 + rng.randrange(10**9)) // unit * unit
    w["items"] = w["items"][:60 if base < 5 * 10**13 else 17]
    for it in w["items"]:
        if it[0] == "e":
            it[1] = (it[1] - lo) // unit * unit + base
    attrs = sorted(set(W.attr_of(it) for it in W.events(w)))
    n = max(1, len(W.events(w)))
    loads = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        r = rng.random()
        loads.append({"rel": [g_end(rng, n), g_end(rng, n)] if r < .6 else None,
                      "abs": [g_end(rng, n), g_end(rng, n)] if r > .45 else None,
                      "norm": rng.random() < .5, "events": rng.sample(attrs, rng.randrange(1, len(attrs) + 1)) if attrs else [],
                      "all": rng.random() < .5})
    adds = [{"name": rng.choice(["pmu", "other", "pmu", "sched_switch", "name"]), "pivot": rng.choice([None, "cpu"]),
             "rows": [[rng.randrange(3), rng.randrange(100)] for _ in range(rng.randrange(1, 6))]}
            for _ in range(rng.choice([0, 0, 1, 2]))]
    return {"world": w, "loads": loads, "cached": case["cached"], "clock": case["clock"], "adds": adds}


def run(case, ctx):
    import trappy
    w = case["world"]
    items = W.events(w)
    if not items:
        return
    fmt = w["fmt"]
    text = W.render(w)
    path = ctx.dir + "/traces/" + W.path_name(w)
    refp = ctx.dir + "/ref/" + W.path_name(w)
    import os
    os.makedirs(ctx.dir + "/ref", exist_ok=True)
    ops.put(path, text)
    ops.put(refp, text)
    for k in case["clock"]:
        ctx.fault("clock-" + k)
    tr = "SysTrace" if fmt == "sys" else "FTrace"
    evs = sorted(set(W.attr_of(it) for it in items))
    classes = (trappy.FTrace, trappy.SysTrace)
    for c in classes:
        c.disable_cache = True
    spec = {"tracer": tr, "scope": "custom", "events": evs}
    ref = dict((norm, ops.load(dict(spec, normalize_time=norm), refp)) for norm in (True, False))
    rows = dict((norm, ops.file_order(ref[norm], evs)) for norm in ref)
    ctx.check(len(rows[False]) == len(items), "event-count", lambda: "%d of %d events" % (len(rows[False]), len(items)))
    for c in classes:
        c.disable_cache = not case["cached"]
    stamps = [W.stamp_value(fmt, it[1]) for it in items]
    # the latest stamp so far, in ns: what the time of an event stands for
    eff, high = [], 0
    for it in items:
        high = max(high, it[1])
        eff.append(high)
    trace = None
    for k, ld in enumerate(case["loads"]):
        sp = dict(spec, normalize_time=ld["norm"])
        if not ld["all"]:
            sp["events"] = [e for e in ld["events"] if e in evs] or evs
        lo, hi = 0, None
        kinds = []
        for key, rel in (("rel", True), ("abs", False)):
            if ld[key] is None:
                continue
            win = []
            for side, end in enumerate(ld[key]):
                v, ns = resolve(end, rel, side, stamps, eff, rows)
                kinds.append(end and end[0])
                win.append(v)
                if side == 0:
                    lo = max(lo, ns)
                elif ns is not None:
                    hi = ns if hi is None else min(hi, ns)
            sp["window" if rel else "abs_window"] = win
        what = "load %d, window %s, abs_window %s" % (k + 1, sp.get("window"), sp.get("abs_window"))
        trace = ops.load(sp, path)
        got = ops.file_order(trace, sp["events"])
        exp = [r for r, e in zip(rows[ld["norm"]], eff) if r[1] in sp["events"] and e >= lo and (hi is None or e <= hi)]
        a, b = [(r[0], r[1]) for r in got], [(r[0], r[1]) for r in exp]
        ctx.check(a == b, "window", lambda: "%s: lines %s are missing, %s are not in it" % (
            what, sorted(set(b) - set(a))[:5], sorted(set(a) - set(b))[:5]))
        for x, y in zip(got, exp):
            ctx.check(x[2] == y[2], "time", lambda: "%s: line %s has time %r, without the window %r" % (what, x[0], x[2], y[2]))
            fx, fy = [dict((c, v) for c, v in r[3].items() if v == v) for r in (x, y)]
            ctx.check(fx == fy, "fields", lambda: "%s: line %s has %s, without the window %s" % (what, x[0], fx, fy))
        ctx.check(trace.basetime == stamps[0], "basetime", lambda: "%s: basetime %r, first stamp %r" % (what, trace.basetime, stamps[0]))
        ctx.check(trace.endtime == ref[True].endtime, "endtime", lambda: "%s: endtime %r, without the window %r"
                  % (what, trace.endtime, ref[True].endtime))
        ctx.check(bool(trace.normalized_time) == ld["norm"], "normalized", lambda: "%s: normalized_time %s" % (what, trace.normalized_time))
        shows(ctx, trace, [r[2] for r in exp], sp["events"], what)
        ctx.covered(fmt, case["clock"], kinds, case["cached"], ld["norm"], min(k, 2))
        ctx.log("load", k, a)
        if 0 < len(exp) < len([r for r in rows[True] if r[1] in sp["events"]]):
            ctx.nontrivial = True
    if case["adds"]:
        add(ctx, trace, sp["events"], [r[2] for r in exp], case["adds"])
        add(ctx, trappy.BareTrace("bare"), [], [], case["adds"])
    ctx.sim_ns = W.span_ns(w)


def resolve(end, rel, side, stamps, eff, rows):
    """-> (what the user passes, the same in ns)"""
    if end is None:
        return (0, 0) if side == 0 else (None, None)
    kind, i = end
    i %= len(stamps)
    base = eff[0]
    if kind == "zero":
        return (0, base if rel else 0)
    if kind == "beyond":
        return (1e6, 10**15)
    if kind == "mid" and i + 1 < len(eff) and eff[i + 1] - eff[i] >= 2000:
        ns = (eff[i] + eff[i + 1]) // 2
        return ((ns - base) / 1e9 if rel else ns / 1e9, ns)
    if kind == "time":
        return (rows[rel][i][2], eff[i])
    # as it is written in the trace: the stamp itself, which may be before those of earlier events
    j = max(j for j in range(i + 1) if eff[j] == eff[i])
    j = min(k for k in range(len(eff)) if eff[k] == eff[j])
    return (stamps[j] - stamps[0] if rel else stamps[j], eff[j])


def shows(ctx, trace, times, names, what):
    want = max(times) - min(times) if times else 0
    ctx.check(trace.get_duration() == want, "duration", lambda: "%s: duration %r, shows %r" % (what, trace.get_duration(), want))
    for key in [""] + sorted(names)[:1] + ["sched", "clock", "nothing"]:
        f = trace.get_filters(key)
        ctx.check(sorted(f) == sorted(n for n in names if key in n), "filters", lambda: "%s: filters for %r are %s of %s"
                  % (what, key, f, names))


def add(ctx, trace, names, times, adds):
    import pandas as pd
    from trappy.stats.grammar import Parser
    names, times = list(names), list(times)
    before = dict((n, getattr(trace, n).data_frame.copy()) for n in names)
    for a in adds:
        idx = pd.Index([.5 * (j + 1) for j in range(len(a["rows"]))], name="Time")
        df = pd.DataFrame({"cpu": [r[0] for r in a["rows"]], "count": [r[1] for r in a["rows"]]}, index=idx)
        orig = df.copy()
        taken = a["name"] in names or a["name"] == "name"
        try:
            trace.add_parsed_event(a["name"], df, pivot=a["pivot"])
            ok = True
        except ValueError:
            ok = False
        ctx.check(ok != taken, "add", lambda: "%r is %s and adding it %s" % (a["name"], "taken" if taken else "free",
                                                                           "works" if ok else "raises"))
        if ok:
            names.append(a["name"])
            times += idx.tolist()
            before[a["name"]] = orig
            v = Parser(trace).solve("%s:count" % a["name"])
            want = {}
            for t, r in zip(idx.tolist(), a["rows"]):
                want.setdefault(r[0] if a["pivot"] else "NO_PIVOT", {})[t] = r[1]
            ctx.check(set(v.columns) == set(want), "pivot", lambda: "%r added with pivot %s is seen with %s" % (
                a["name"], a["pivot"], list(v.columns)))
            for c in v.columns:
                last, exp = None, []
                for t in idx.tolist():
                    last = want[c].get(t, last)
                    exp.append(last)
                ctx.check([None if x != x else x for x in v[c].tolist()] == exp, "pivot", lambda: "%r column %s is %s, added %s"
                          % (a["name"], c, v[c].tolist(), exp))
            ctx.check(getattr(trace, a["name"]).pivot == a["pivot"] if a["pivot"] else True, "pivot", lambda: "pivot of %r" % a["name"])
            i = Parser(trace).inspect("%s:count" % a["name"])
            ctx.check(i["pivot"] == a["pivot"] and i["length"] == len(a["rows"]), "pivot", lambda: "inspect of %r says %s" % (a["name"], i))
        for n in names:
            ctx.check(getattr(trace, n).data_frame.equals(before[n]), "add", lambda: "adding %r changes %s" % (a["name"], n))
        shows(ctx, trace, times, names, "after adding %r" % a["name"])
        ctx.stat("added" if ok else "refused")

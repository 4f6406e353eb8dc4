"""C11: what a load parses is exactly what the registrations before it say."""
import os

from dst import core, hist, ops, sched, seams, world as W
from dst.props import c08

ID = "C11"
LEVEL = "exploration"
QUICK, THOROUGH = 2400, 30000
SHRINK = ("items", "steps", "events", "head", "faults")
SIMPLIFY = {"dat": [False], "norm": [False], "nth": [0], "cached": [False], "how": ["dynamic"]}
RULE = ("A history of 3-12 steps: parsers registered (dynamically or as classes with their own hooks, in any "
        "scope or several, raw or not, under a new or an already used name), unregistered (also twice), and loads with "
        "random scope and events (by name, by word, unknown), some of which fail: unreadable input, words that "
        "clash, a parser hook that raises, an interrupt. A model of the registry predicts for every load which tables exist "
        "and, line by line, which events each holds, and whether words clash; earlier traces stay as they were. "
        "Non-trivial: a load was checked after at least one registration.")
MEASURE = "(registered names and scopes, load arguments, failing step before) combinations"
REAL = ["register_*/unregister_*", "trappy.FTrace/SysTrace", "DynamicTypeFactory", "cache", "pandas"]
STUB = ["trace-cmd", "system calls (input faults)", "interrupt position"]
ASSUME = ["with the cache on, a class name and word keep their implementation", "one thread registers and loads", "a name is registered in several scopes only with the same class"]

CLASSES = {"EvtAlpha": "evt_alpha", "EvtBeta": "evt_beta", "EvtGamma": "evt_gamma",
           "GpuBusy": "gpu_busy", "MyThing": "my_thing", "MyMarker": "my_marker"}
WORDS = ["evt_alpha:", "evt_alpha", "evt_beta:", "evt_gamma:", "gpu_busy:", "my_marker:", "q0_depth:",
         "sched_wakeup:", "thermal_temperature:"]
SAFE = ["sched_wakeup", "cpu_frequency", "thermal", "clk_on", "sched_migrate_task", "sys_exit"]


def gen(rng, i, tier):
    fmt = rng.choice(["us", "us", "t9", "ns", "sys"])
    users = rng.sample(W.USER_EVENTS, rng.randrange(2, 5))
    w = W.gen_world(rng, n=rng.choice([2, 5, 10, 20]), fmt=fmt, users=users, junk=.05,
                    kinds=rng.sample(SAFE, rng.randrange(0, 4)), marks=False)
    if rng.random() < .4 and fmt != "sys":
        for it in w["items"]:
            if it[0] == "e" and rng.random() < .2:
                it[5], it[6] = "mark", W.KINDS["mark"].gen(rng)
    for it in w["items"]:
        if it[0] == "e" and it[5] == "umark":
            # a capital letter first would be one of systrace's own marks
            it[6][1] = [[n.lower(), v] for n, v in it[6][1]]
    dat = fmt != "sys" and rng.random() < .25
    steps = []
    for k in range(rng.randrange(3, 13)):
        r = rng.random()
        if r < .35:
            cls = rng.choice(sorted(CLASSES))
            steps.append({"do": "reg", "cls": cls,
                          "word": rng.choice(WORDS) if rng.random() < .5 else CLASSES[cls] + ":",
                          "scope": rng.choice(["all", "all", "sched", "thermal"]),
                          "raw": rng.random() < .3, "how": rng.choice(["dynamic", "dynamic", "class", "noname"]),
                          "boom": rng.random() < .12, "pivot": rng.random() < .3})
        elif r < .4:
            steps.append({"do": "also", "pick": rng.randrange(100), "scope": rng.choice(["all", "sched", "thermal"])})
        elif r < .52:
            steps.append({"do": "unreg", "pick": rng.randrange(100), "twice": rng.random() < .3})
        else:
            names = list(CLASSES.values()) + [x.rstrip(":") for x in WORDS] + WORDS + \
                ["sched_wakeup", "thermal", "tracing_mark_write", "unknown_ev", "q0_depth"]
            ev = rng.sample(sorted(set(names)), rng.randrange(0, 4))
            st = {"do": "load", "scope": rng.choice(["all", "sched", "thermal", "custom", "custom"]),
                  "events": ev, "faults": [], "line": 0, "tc": None, "norm": rng.random() < .5}
            r = rng.random()
            if r < .15:
                st["faults"], st["tc"] = c08.gen_faults(rng, dat)
            elif r < .25:
                st["line"] = int(2 ** rng.uniform(3, 13))
            steps.append(st)
    steps.append({"do": "load", "scope": rng.choice(["all", "custom"]), "events": ["unknown_ev"] + users[:1],
                  "faults": [], "line": 0, "tc": None, "norm": False})
    cached = rng.random() < .5
    if cached:
        # the cache cannot know that a class of the same name does something else now
        how = dict((c, rng.choice(["dynamic", "class", "noname"])) for c in sorted(CLASSES))
        for s in steps:
            if s["do"] == "reg":
                s["how"] = how[s["cls"]]
    return {"world": w, "dat": dat, "steps": steps, "cached": cached}


class Model(object):
    """What is registered: scope -> name -> entry."""

    def __init__(self, base):
        self.sc = {"thermal": {}, "sched": {}, "all": {}}
        both = set(base["thermal"]) & set(base["sched"])
        for n, word in base["all"].items():
            scope = "all" if n in both else "thermal" if n in base["thermal"] else "sched"
            self.sc[scope][n] = {"name": n, "word": word, "raw": False, "builtin": True, "obj": None,
                                 "fallback": n == "tracing_mark_write", "extra": False, "boom": False}

    def known(self):
        out = {}
        for s in ("thermal", "sched", "all"):
            out.update(self.sc[s])
        return out

    def selected(self, scope, events):
        out = {}
        for e in events:
            for ent in self.known().values():
                if e in (ent["word"], ent["name"]) or e + ":" == ent["word"]:
                    out[ent["name"]] = ent
                    break
            else:
                out[e] = {"name": e, "word": e + ":", "raw": False, "builtin": False, "fallback": False,
                          "extra": False, "boom": False, "obj": None}
        if scope in ("thermal", "all"):
            out.update(self.sc["thermal"])
        if scope in ("sched", "all"):
            out.update(self.sc["sched"])
        if scope != "custom":
            out.update(self.sc["all"])
        return out

    def ambiguous(self, events):
        """An event argument that several registered parsers answer to."""
        for e in events:
            hits = [x for x in self.known().values()
                    if e in (x["word"], x["name"]) or e + ":" == x["word"]]
            if len(hits) > 1:
                return True
        return False


def clash(sel):
    ws = sorted(sel.items())
    for i, (_, a) in enumerate(ws):
        for _, b in ws[i + 1:]:
            if a["word"] in b["word"] or b["word"] in a["word"]:
                return True
    return False


def truth(w, sel, dat, raws):
    out = {}
    for it in W.events(w):
        data = None
        if dat:
            data = hist.raw_data(it) if W.event_of(it) in raws else None
        line = W.line_of(w["fmt"], it, data)
        hit = None
        for n, e in sel.items():
            if e["word"] in line:
                if not e["fallback"]:
                    hit = n
                    break
                hit = n
        if hit is None:
            continue
        k, a = it[5], it[6]
        if sel[hit]["fallback"]:
            f = {"string": W.KINDS[k].text(a)}
        elif data is not None:
            f = dict((n, W.cast(v)) for n, v in (x.split("=", 1) for x in merged(data)))
        else:
            f = W.KINDS[k].exp(a)
        if sel[hit]["extra"]:
            f = dict(f, seen_by=hit)
        out.setdefault(hit, []).append({"comm": it[3].strip(), "pid": it[4], "cpu": it[2], "f": f})
    return out


def merged(data):
    """Split k=v text; words without '=' belong to the value before them."""
    out = []
    for x in data.split():
        if "=" in x or not out:
            out.append(x)
        elif isinstance(W.cast(out[-1].split("=", 1)[1]), str):
            out[-1] += " " + x
    return out


def make_class(s, name):
    from trappy.base import Base

    class Custom(Base):
        unique_word = s["word"]
        if s["how"] == "class":
            pass

        def finalize_object(self):
            if s["boom"]:
                raise ZeroDivisionError("the parser's hook")
            if len(self.data_frame):
                self.data_frame["seen_by"] = name
    Custom.__name__ = str(s["cls"])
    if s["how"] == "class":
        Custom.name = name
    return Custom


def run(case, ctx):
    import trappy
    m = hist.Machine(ctx)
    w = case["world"]
    path = m.put("trace", w, case["dat"])
    for c in m.classes:
        c.disable_cache = not case["cached"]
    base = ops.scopes()
    model = Model(base)
    live = []           # (entry, scope)
    old = []
    regs = checked = 0
    failed = None
    tmp0 = None
    for n, s in enumerate(case["steps"]):
        ctx.log("step", n, s["do"])
        if s["do"] == "reg":
            name = CLASSES[s["cls"]] if s["how"] != "noname" else s["word"].split(":")[0]
            where = [sc for sc in model.sc if name in model.sc[sc]]
            if where and where != [s["scope"]] or where and model.sc[s["scope"]][name]["builtin"]:
                continue
            if s["how"] == "dynamic":
                kw = {"pivot": "cpu"} if s["pivot"] else {}
                obj = trappy.register_dynamic_ftrace(s["cls"], s["word"], s["scope"],
                                                     parse_raw=s["raw"], **kw)
                ctx.check(getattr(obj, "pivot", None) == (kw.get("pivot")), "pivot",
                          "the registered class has another pivot")
            else:
                obj = make_class(s, name)
                trappy.register_ftrace_parser(obj, s["scope"])
            ent = {"name": name, "word": s["word"], "raw": s["raw"] and s["how"] == "dynamic", "builtin": False,
                   "fallback": False, "extra": s["how"] != "dynamic",
                   "boom": s["boom"] and s["how"] != "dynamic", "obj": obj}
            model.sc[s["scope"]][name] = ent
            live.append(ent)
            regs += 1
            continue
        if s["do"] == "also":
            # the same class in one more scope
            if not live:
                continue
            ent = live[s["pick"] % len(live)]
            if not any(e is ent for sc in model.sc.values() for e in sc.values()) or ent["name"] in model.sc[s["scope"]]:
                continue
            trappy.register_ftrace_parser(ent["obj"], s["scope"])
            model.sc[s["scope"]][ent["name"]] = ent
            regs += 1
            ctx.stat("parsers registered in a second scope")
            continue
        if s["do"] == "unreg":
            if not live:
                continue
            ent = live[s["pick"] % len(live)]
            for k in range(2 if s["twice"] else 1):
                trappy.unregister_ftrace_parser(ent["obj"])
            for sc in model.sc.values():
                for nm in [x for x, e in sc.items() if e is ent]:
                    del sc[nm]
            continue
        if model.ambiguous(s["events"]):
            continue
        sel = model.selected(s["scope"], s["events"])
        if not sel:
            continue
        raws = sorted(e["name"] for e in model.known().values() if e["raw"])
        spec = {"tracer": "SysTrace" if w["fmt"] == "sys" else "FTrace", "scope": s["scope"],
                "events": s["events"], "normalize_time": s["norm"]}
        m.tc.fail = dict(s["tc"]) if s["tc"] else None
        given = list(s["events"])
        before = len(seams.SimPopen.history)
        got = m.hit(dict(spec, events=given), path, s["faults"], s["line"])
        tc = s["tc"] is not None and m.tc.fail is None
        m.tc.fail = None
        disturbed = bool(ctx.fs.current.fired) or tc
        what = "load %d (scope %s, events %s)" % (n, s["scope"], s["events"])
        for argv in seams.SimPopen.history[before:]:
            asked = sorted(set(argv[k + 1] for k, a in enumerate(argv) if a == "-r"))
            asked = [a for a in asked if a not in base["all"]]
            ctx.check(asked == raws, "raw-events", lambda: "%s asks trace-cmd for %s raw, registered raw are %s"
                      % (what, asked, raws))
        if clash(sel):
            ctx.check(got[0] == "exc", "clash-accepted", lambda: "%s is accepted, words clash" % what)
            if not disturbed:
                ctx.check(got[1] == "RuntimeError", "clash-error", lambda: "%s raises %s" % (what, got[1:]))
            ctx.stat("loads whose words clash")
            failed = "clash"
            continue
        tr = truth(w, sel, case["dat"], raws)
        boom = any(e["boom"] for e in sel.values())
        if got[0] == "exc":
            ok = disturbed or (boom and got[1] == "ZeroDivisionError")
            ctx.check(ok, "load-failed", lambda: "%s raises %s: %s" % (what, got[1], got[2]))
            failed = got[1]
            ctx.stat("loads that failed on purpose")
            continue
        t = got[2]
        have = sorted(t.class_definitions)
        ctx.check(have == sorted(sel), "tables", lambda: "%s: tables %s instead of %s"
                  % (what, sorted(set(have) - set(sel)), sorted(set(sel) - set(have))))
        ctx.check(sorted(t.get_filters()) == sorted(sel), "filters", "get_filters() lists other tables")
        plain = sorted(x for x in sel if not boom)
        if not boom:
            ops.compare_truth(ctx, t, dict((k, v) for k, v in tr.items()), plain)
        checked += 1
        ctx.stat("loads checked against the model")
        ctx.covered(tuple(sorted(e["word"] for e in live)), s["scope"], tuple(sorted(s["events"])), failed)
        old.append((t, ops.digest(ops.canon(t)), what))
        ctx.log("load", old[-1][1])
    for t, d, what in old:
        ctx.check(ops.digest(ops.canon(t)) == d, "old-trace", lambda: "the trace of %s changed later" % what)
    # what is left is what the model says
    for ent in live:
        trappy.unregister_ftrace_parser(ent["obj"])
    seams._real["rename"](ctx.dir + "/scopes", ctx.dir + "/scopes0")
    ctx.check(ops.scopes() == base, "registry", "after everything is unregistered the scopes parse something else")
    ctx.nontrivial = regs > 0 and checked > 0
    ctx.sim_ns = W.span_ns(w)

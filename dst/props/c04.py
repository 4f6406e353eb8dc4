"""C04: a load that is killed, loses power or is interrupted harms no later load."""
import os

from dst import hist, ops, seams, world as W

ID = "C04"
LEVEL = "exploration"
QUICK, THOROUGH = 3500, 25000
SHRINK = ("items", "steps", "events", "head", "faults", "power")
SIMPLIFY = {"dat": [False], "normalize_time": [False], "nth": [0], "frac": [0.5],
            "role": ["any"], "scope": ["custom"]}
RULE = ("A case is a trace (text, systrace or .dat) and a history of 2-8 loads with random "
        "scope/events/windows; one to three of them are struck at a chosen file operation or line "
        "of trappy: the process is killed (also in the middle of a write), the power is cut (files "
        "that were not synced come back truncated, empty, zero-tailed, missing or whole) or the "
        "user interrupts. Each surviving load must equal a cache-less first-time load. Non-trivial: a "
        "fault really fired and a load was compared after it.")
MEASURE = "(fault kind, operation and role struck, next load's cache state) combinations"
REAL = ["trappy.FTrace/SysTrace with the cache", "pandas", "file contents on a scratch tree"]
STUB = ["system calls (struck by the simulator)", "what a power cut leaves", "trace-cmd", "clock, pids"]
ASSUME = ["a power cut loses only data that was not synced; completed renames and creations survive or vanish whole",
          "in-memory module state is not reset by a simulated kill (nothing on disk depends on it)"]

KINDS = ["kill", "kill", "power", "intr", "line"]


def gen_strike(rng):
    k = rng.choice(KINDS)
    s = {"kind": k, "faults": [], "line": 0, "power": []}
    if k == "line":
        s["line"] = int(2 ** rng.uniform(3, 14.5))
        return s
    f = {"kind": k, "frac": rng.random()}
    if rng.random() < .75:
        f["op"], f["role"] = rng.choice([("mut", "cache"), ("write", "cache"), ("mut", "cache"),
                                         ("any", "cache"), ("rename", "cache"), ("unlink", "cache")])
        f["nth"] = rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 8, 10, 14, 20, 30])
        if f["op"] == "write":
            f["nth"] //= 3
    else:
        f["op"], f["role"] = "any", rng.choice(["any", "any", "traces", "tmp"])
        f["nth"] = rng.randrange(0, rng.choice([8, 30, 90]))
    s["faults"] = [f]
    if k == "power":
        s["power"] = [rng.randrange(505) for _ in range(rng.randrange(1, 6))]
    return s


def gen(rng, i, tier):
    fmt = rng.choice(["us", "us", "t9", "ns", "sys"])
    w = W.gen_world(rng, n=rng.choice([1, 3, 6, 12, 25]), fmt=fmt,
                    users=rng.sample(W.USER_EVENTS, rng.randrange(1, 4)))
    base = hist.gen_spec(rng, w, scopes=("custom",) * 7 + ("sched",))
    steps = []
    # a long history in which the cache is outdated again and again
    long = rng.random() < .3
    n = rng.randrange(4, 9) if long else rng.randrange(2, 6)
    struck = set(rng.sample(range(n - 1), rng.randrange(1, min(3, n - 1) + 1)))
    same = rng.random()
    for k in range(n):
        spec = dict(base) if rng.random() < same else \
            hist.gen_spec(rng, w, scopes=("custom",) * 7 + ("sched",))
        st = {"spec": spec, "strike": gen_strike(rng) if k in struck else None}
        if rng.random() < (.55 if long else .12):
            st["change"] = True         # the trace is replaced before this load
        steps.append(st)
    steps[-1]["spec"] = dict(base)
    return {"world": w, "world2": W.gen_world(rng, n=5, fmt=fmt, users=w["users"]),
            "dat": fmt != "sys" and rng.random() < .25, "steps": steps}


def run(case, ctx):
    m = hist.Machine(ctx)
    worlds = [case["world"], case["world2"]]
    cur = 0
    path = m.put("trace", worlds[0], case["dat"])
    cdir = "%s/.%s.cache" % (m.root, os.path.basename(path))
    fired = after = 0
    last = None
    for n, s in enumerate(case["steps"]):
        if s.get("change"):
            cur = 1 - cur
            m.put("trace", worlds[cur], case["dat"])
        ctx.log("load", n)
        st = s["strike"]
        had = os.path.isdir(cdir)
        ref = m.reference(s["spec"], path)
        if st is None:
            got = m.attempt(s["spec"], path)
        else:
            got = m.hit(s["spec"], path, st["faults"], st["line"])
        hit = ctx.fs.current.fired if st is not None else []
        if got[0] == "crash":
            m.restart(st["power"] if got[1] == "power" else None)
            fired += 1
            last = ("crash",) + tuple(hit[-1:])
            ctx.stat("crashes")
        elif hit and got[0] == "exc" and got[1] == "KeyboardInterrupt":
            fired += 1
            last = ("intr",) + tuple(hit[-1:])
            ctx.stat("interrupted loads")
        else:
            # undisturbed, or it went on in spite of the interrupt
            fired += bool(hit)
            m.same(got, ref, "load %d%s" % (n, " after %s" % (last,) if last else ""))
            if last:
                after += 1
                ctx.covered(last, had, got[0], got[0] == "ok" and
                            sum(bool(c.cached) for c in got[2].trace_classes))
                ctx.stat("loads compared after a fault")
        ctx.check(ops.get(path) == m.content[path], "trace-changed",
                  "the trace file is no longer what it was")
    ctx.nontrivial = fired > 0 and after > 0
    ctx.sim_ns = W.span_ns(case["world"])

"""C08: input that cannot be read is an error, never a partial trace, and leaves nothing behind."""
import os

from dst import core, hist, ops, seams, world as W

ID = "C08"
LEVEL = "exploration"
QUICK, THOROUGH = 4500, 50000
SHRINK = ("items", "steps", "events", "head", "faults")
SIMPLIFY = {"dat": [False], "normalize_time": [False], "nth": [0], "frac": [0.5], "scope": ["custom"],
            "sticky": [False], "off": [False]}
RULE = ("A case is a trace (text, systrace or .dat through trace-cmd) and a history of 2-5 loads; one to three "
        "of them meet failures of the input path: the trace cannot be opened or read from some read on, "
        "trace-cmd is missing, exits with an error or dies by a signal after part of its output, the "
        "temporary file cannot be made, written, read or fills the disk, memory runs out. Such a load must "
        "raise or equal a cache-less healthy load; no temporary file may stay; a later healthy load must equal "
        "the reference. Non-trivial: a fault fired and a healthy load was compared after it.")
MEASURE = "(input kind, fault and operation struck, outcome, cache state) combinations"
REAL = ["trappy.FTrace/SysTrace with the cache", "pandas", "tempfile", "subprocess.run on top of a simulated child"]
STUB = ["system calls on the trace and on temporary files", "trace-cmd", "clock, pids, temp names"]
ASSUME = ["trace-cmd that dies reports it by its exit status"]


def gen_faults(rng, dat):
    r = rng.random()
    if dat and r < .45:
        k = rng.choice(["missing", "exit", "exit", "signal", "EACCES", "ENOMEM", "EMFILE"])
        return [], {"kind": k, "frac": rng.choice([0, rng.random(), rng.random(), 1]),
                    "rc": rng.choice([1, 2, 127, 255]), "sig": rng.choice([9, 15, 11])}
    if dat and r < .8:
        op = rng.choice(["open_w", "write", "write", "read", "open_r", "close_w", "any", "stat"])
        kind = {"open_w": ["EMFILE", "EACCES", "ENOSPC", "EROFS", "ENFILE"],
                "write": ["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "short", "mem"], "read": ["EIO", "ESTALE", "mem"],
                "open_r": ["EMFILE", "EACCES", "ENOENT", "EIO"], "close_w": ["EIO", "ENOSPC"],
                "any": ["EIO", "EMFILE"], "stat": ["EIO"]}[op]
        return [{"kind": rng.choice(kind), "op": op, "role": "tmp", "nth": rng.choice([0, 0, 0, 1, 2]),
                 "frac": rng.random(), "sticky": rng.random() < .3 and op in ("write", "read")}], None
    op = rng.choice(["read", "read", "read", "open_r", "stat"])
    kind = {"read": ["EIO", "EIO", "ESTALE", "EISDIR", "mem", "intr"],
            "open_r": ["EACCES", "ENOENT", "EMFILE", "EIO", "ELOOP"],
            "stat": ["EACCES", "EIO", "ENOENT"]}[op]
    return [{"kind": rng.choice(kind), "op": op, "role": "traces",
             "nth": rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 20, 30]) if op == "read" else rng.randrange(4),
             "sticky": rng.random() < .4}], None


def gen(rng, i, tier):
    fmt = rng.choice(["us", "us", "t9", "ns", "sys"])
    dat = fmt != "sys" and rng.random() < .55
    w = W.gen_world(rng, n=rng.choice([1, 3, 6, 12, 25]), fmt=fmt,
                    users=rng.sample(W.USER_EVENTS, rng.randrange(1, 3)))
    base = hist.gen_spec(rng, w, scopes=("custom",) * 9 + ("sched",))
    n = rng.randrange(2, 6)
    struck = set(rng.sample(range(n - 1), rng.randrange(1, min(3, n - 1) + 1)))
    steps = []
    same = rng.random()
    for k in range(n):
        spec = dict(base) if rng.random() < same else \
            hist.gen_spec(rng, w, scopes=("custom",) * 9 + ("sched",))
        st = {"spec": spec, "faults": [], "tc": None}
        if k in struck:
            st["faults"], st["tc"] = gen_faults(rng, dat)
        steps.append(st)
    return {"world": w, "dat": dat, "steps": steps, "off": rng.random() < .25,
            "sibling": dat and rng.random() < .3,
            "chunks": rng.choice([[100], [300], [40, 700], [1000], None]),
            "bufsize": rng.choice([64, 128, 256, 1024])}


def run(case, ctx):
    fs = ctx.fs
    m = hist.Machine(ctx)
    path = m.put("trace", case["world"], case["dat"])
    if case["sibling"]:
        # a text trace of something else, of the same name
        ops.put(m.root + "/trace.txt", b"            other-1     [000] 5.000001: evt_alpha: a=999\n")
    for c in m.classes:
        c.disable_cache = case["off"]
    fs.chunks, fs.bufsize = case["chunks"], case["bufsize"]
    tmp = ctx.dir + "/tmp"
    struck = compared = 0
    last = None
    for n, s in enumerate(case["steps"]):
        faults = s["faults"]
        if case["sibling"]:
            faults = [f for f in faults if f["op"] != "stat"]
        ref = m.reference(s["spec"], path)
        m.tc.fail = dict(s["tc"]) if s["tc"] else None
        calls = m.tc.calls
        before = sorted(seams._real["listdir"](tmp))
        got = m.hit(s["spec"], path, faults)
        tc_hit = s["tc"] is not None and m.tc.fail is None and m.tc.calls > calls
        m.tc.fail = None
        fired = list(fs.current.fired) + ([("trace-cmd", s["tc"]["kind"])] if tc_hit else [])
        what = "load %d (failures in it: %s)" % (n, fired)
        if fired:
            struck += 1
            last = fired[0]
            ctx.stat("struck loads")
        cached = sum(bool(c.cached) for c in got[2].trace_classes) if got[0] == "ok" else -1
        if fired and got[0] == "exc":
            ctx.stat("explicit errors")
        else:
            m.same(got, ref, what + (" after %s" % (last,) if last else ""))
            compared += struck > 0 and not fired
        ctx.covered(path[-4:], fired[:1], got[0], min(cached, 2), last)
        after = sorted(seams._real["listdir"](tmp))
        removal = any(f[1] == "unlink" or f[0] == "intr" for f in fired if len(f) == 3)
        ctx.check(removal or after == before, "temp-file-left",
                  lambda: "%s (%s): temporary files stay: %s" % (what, got[0], after))
        ctx.check(ops.get(path) == m.content[path], "trace-changed",
                  "the trace file is no longer what it was")
    ctx.nontrivial = struck > 0 and compared > 0
    ctx.sim_ns = W.span_ns(case["world"])

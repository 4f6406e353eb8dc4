"""C07: a trace that changed is never answered from what was cached before."""
import os

from dst import core, hist, ops, seams, world as W

ID = "C07"
LEVEL = "exploration"
QUICK, THOROUGH = 3500, 40000
SHRINK = ("items", "steps", "events", "head", "faults", "worlds")
SIMPLIFY = {"dat": [False], "normalize_time": [False], "nth": [0], "scope": ["custom"],
            "how": ["write"], "clock": [0], "rel": [False]}
RULE = ("2-4 versions of a trace (some differ by one digit and have the same size) and a history of 3-8 "
        "steps: loads with varying arguments, and changes of version by rewriting in place, renaming "
        "over, retargeting a symbolic link, appending or going back to an earlier version; the "
        "modification time may stay the same or go backwards; a change may also hit in the middle of a "
        "load, at a chosen file operation. Every load that no change hits must equal a cache-less load "
        "of the bytes then in place. Non-trivial: a load was compared after a change.")
MEASURE = "(how it changed, when, same size, mtime direction, classes cached) combinations"
REAL = ["trappy.FTrace/SysTrace with the cache", "pandas", "file contents on a scratch tree"]
STUB = ["the writer that changes the trace", "mtimes and clock", "system calls pass the simulator", "trace-cmd"]
ASSUME = ["what a load returns while its trace is being changed is not constrained",
          "no two versions have the same MD5 sum"]


def gen(rng, i, tier):
    fmt = rng.choice(["us", "us", "t9", "ns", "sys"])
    users = rng.sample(W.USER_EVENTS, rng.randrange(1, 3))
    w = W.gen_world(rng, n=rng.choice([1, 3, 6, 12]), fmt=fmt, users=users)
    worlds = [w]
    for k in range(rng.randrange(1, 4)):
        r = rng.random()
        if r < .5:
            # same size: one event's time moves, or one pid changes a digit
            v = core.json.loads(core.json.dumps(rng.choice(worlds)))
            evs = [it for it in v["items"] if it[0] == "e"] or [["e", 0, 0, 0, 10, 0, 0]]
            it = rng.choice(evs)
            if rng.random() < .5:
                it[2] = (it[2] + 1) % 8
            else:
                s = str(it[4])
                d = rng.randrange(len(s))
                nd = str((int(s[d]) + 1) % 9 + (1 if d == 0 else 0))[-1]
                if d == 0 and nd == "0":
                    nd = "5"
                it[4] = int(s[:d] + nd + s[d + 1:])
            worlds.append(v)
        elif r < .7:
            v = core.json.loads(core.json.dumps(worlds[0]))
            more = W.gen_world(rng, n=rng.choice([1, 3]), fmt=fmt, users=users)
            v["items"] = v["items"] + more["items"]
            worlds.append(v)
        elif r < .8:
            v = core.json.loads(core.json.dumps(worlds[0]))
            v["items"] = v["items"][:max(1, len(v["items"]) // 2)]
            worlds.append(v)
        else:
            worlds.append(W.gen_world(rng, n=rng.choice([1, 3, 6, 12]), fmt=fmt, users=users))
    base = hist.gen_spec(rng, w, scopes=("custom",) * 9 + ("sched",))
    steps = []
    same = rng.random()
    for k in range(rng.randrange(3, 9)):
        if rng.random() < .4:
            steps.append({"do": "change", "to": rng.randrange(len(worlds)), "how": gen_how(rng),
                          "clock": rng.choice([0, 0, -10**9, 10**9, -10**15])})
        else:
            spec = dict(base) if rng.random() < same else \
                hist.gen_spec(rng, w, scopes=("custom",) * 9 + ("sched",))
            st = {"do": "load", "spec": spec, "faults": []}
            if rng.random() < .35:
                st["faults"] = [{"kind": "call", "fn": "change", "op": rng.choice(["any", "open_r", "read", "mut"]),
                                 "role": rng.choice(["traces", "cache", "any"]),
                                 "nth": rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 15, 25]),
                                 "to": rng.randrange(len(worlds)), "how": gen_how(rng),
                                 "clock": rng.choice([0, -10**9])}]
            steps.append(st)
    steps.append({"do": "change", "to": 0, "how": gen_how(rng), "clock": 0})
    steps.append({"do": "load", "spec": dict(base), "faults": []})
    big = rng.choice([70000, 140000, 300000, 1100000, 2200000, 5000000]) if rng.random() < .05 else 0
    if big:
        # a long stretch of nothing, in all of them at the same place
        some = [rng.randrange(len(worlds[0]["items"]) + 1) for _ in range(rng.choice([0, 1, 2, 3]))]
        for at in sorted(some + rng.choice([[], [0, 10**6], [0, 10**6], [0]])) or [0]:
            for v in worlds:
                v["items"].insert(min(at, len(v["items"])), ["j", "#pad %d" % big])
    return {"worlds": worlds, "dat": fmt != "sys" and rng.random() < .2, "steps": steps,
            "chunks": None if big else rng.choice([None, None, [64], [300], [1000]]),
            "bufsize": None if big else rng.choice([None, 128]), "rel": rng.random() < .3,
            "link": rng.random() < .25}


def gen_how(rng):
    return rng.choice(["write", "write", "rename", "keep-mtime", "keep-mtime", "inplace"])


def run(case, ctx):
    fs = ctx.fs
    m = hist.Machine(ctx)
    worlds = case["worlds"]
    if not worlds:
        raise core.Skip("no trace")
    datas = [hist.dat_bytes(w) if case["dat"] else W.render(w) for w in worlds]
    path = m.put("trace", worlds[0], case["dat"])
    cur = [0]
    if case["link"]:
        real = ctx.dir + "/traces/real"
        seams._real["mkdir"](real)
        targets = []
        for k, d in enumerate(datas):
            targets.append("%s/v%d" % (real, k))
            ops.put(targets[-1], d)
        seams._real["unlink"](path)
        seams._real["symlink"](targets[0], path)
    fs.chunks, fs.bufsize = case["chunks"], case["bufsize"]
    mtime0 = fs.clock_ns
    changes = [0]

    def change(to, how, clock):
        to %= len(datas)
        fs.clock_ns = max(10**9, fs.clock_ns + clock)
        if to != cur[0]:
            changes[0] += 1
            ctx.fault("changed-" + how)
        if case["link"]:
            seams._real["unlink"](path)
            seams._real["symlink"](targets[to], path)
        elif how == "rename":
            ops.put(path + ".new", datas[to])
            seams._real["rename"](path + ".new", path)
        elif how == "inplace":
            with seams._real_io_open(path, "r+b") as f:
                f.write(datas[to])
                f.truncate()
            fs.tick()
            fs.stamp(path)
        else:
            ops.put(path, datas[to])
        if how == "keep-mtime":
            seams._real["utime"](path, ns=(mtime0, mtime0))
        info = (how, len(datas[to]) == len(datas[cur[0]]), clock < 0)
        cur[0] = to
        return info

    def call(f):
        change(f["to"], f["how"], f["clock"])
        ctx.fault("changed-during-a-load")
    fs.callbacks["change"] = call
    p = path
    if case["rel"]:
        os.chdir(m.root)
        p = os.path.basename(path)
    info = None
    compared = 0
    last_cached = 0
    for n, s in enumerate(case["steps"]):
        ctx.log("step", n, s["do"])
        if s["do"] == "change":
            info = change(s["to"], s["how"], s["clock"])
            continue
        before = changes[0]
        got = m.hit(s["spec"], p, s["faults"])
        if fs.current.fired:
            ctx.stat("loads hit by a change")
            info = ("mid-load",) + fs.current.fired[0]
            continue
        ref = m.reference(s["spec"], p, datas[cur[0]])
        m.same(got, ref, "load %d, of version %d, %d changes before it" % (n, cur[0], changes[0]))
        ctx.stat("quiet loads compared")
        cached = sum(bool(c.cached) for c in got[2].trace_classes) if got[0] == "ok" else -1
        if changes[0]:
            compared += 1
            ctx.covered(info, min(cached, 2), case["link"], case["rel"])
        ctx.stat("served from the cache", cached > 0)
    ctx.nontrivial = compared > 0
    ctx.sim_ns = sum(W.span_ns(w) for w in worlds)

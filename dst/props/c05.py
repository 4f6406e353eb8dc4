"""C05: whatever happens to the cache's storage, a load succeeds and is right."""
import os
import random

from dst import hist, ops, seams, world as W

ID = "C05"
LEVEL = "exploration"
QUICK, THOROUGH = 3500, 40000
SHRINK = ("items", "steps", "events", "head", "faults", "damage")
SIMPLIFY = {"dat": [False], "normalize_time": [False], "nth": [0], "frac": [0.5],
            "sticky": [False], "role": ["any"], "scope": ["custom"]}
RULE = ("A case is a trace and a history of 2-5 loads. Before a load the cache may be damaged at rest "
        "(files truncated, emptied, zero-tailed, overwritten with noise, swapped, removed, replaced by "
        "directories, left by another version; the cache itself removed, emptied or replaced by a file) "
        "and during it operations on the cache fail (20 errnos, once or from then on, partial writes) or "
        "somebody else removes or overwrites cache files between two operations. Every load must return "
        "what a cache-less load returns. Non-trivial: at least one fault or damage took effect.")
MEASURE = "(damage, errno, operation struck, classes served from the cache) combinations"
REAL = ["trappy.FTrace/SysTrace with the cache", "pandas", "file contents on a scratch tree"]
STUB = ["system calls on the cache (struck by the simulator)", "trace-cmd", "clock, pids"]
ASSUME = ["silent corruption that forges well-formed metadata is out of scope; incomplete, empty, foreign or "
          "noise content is in scope"]

ANY = ["EIO", "EACCES", "EPERM", "ESTALE", "ENOENT", "ENOTDIR", "ELOOP", "ETIMEDOUT", "ENODEV",
       "EINVAL", "ENOMEM"]
BY_OP = {
    "mut": ["EROFS", "ENOSPC", "EDQUOT", "EIO", "EACCES", "EPERM", "ESTALE"],
    "write": ["ENOSPC", "ENOSPC", "EDQUOT", "EIO", "EFBIG", "short"],
    "read": ["EIO", "EIO", "ESTALE", "EISDIR"],
    "open_w": ["EMFILE", "ENFILE", "EACCES", "ENOSPC", "EROFS", "EISDIR", "ENOENT", "ENAMETOOLONG"],
    "open_r": ["EMFILE", "ENFILE", "EACCES", "ENOENT", "EIO", "EISDIR"],
    "mkdir": ["EEXIST", "ENOSPC", "EACCES", "EROFS", "EMLINK", "ENOENT", "ENAMETOOLONG"],
    "unlink": ["EACCES", "EBUSY", "EROFS", "ENOENT", "EPERM"],
    "rmdir": ["ENOTEMPTY", "EBUSY", "EACCES", "ENOENT"],
    "listdir": ["EACCES", "EIO", "ENOENT"],
    "stat": ["EACCES", "EIO", "ENOENT", "ENAMETOOLONG"],
    "close_w": ["ENOSPC", "EIO", "EDQUOT"],
    "rename": ["EXDEV", "EACCES", "ENOSPC", "EIO"],
    "any": ANY,
}
DAMAGE = ["trunc", "trunc", "empty", "zeros", "noise", "rm", "isdir", "json", "swap", "old", "cachefile",
          "rmcache", "emptycache", "extra", "rmmeta"]
JSONS = ["null", "[]", "{}", "0", '"x"', "[1,2", '{"md5sum": 1}', "nan", "{\"a\": {}}", "\x00", "", "{",
         '{"md5sum": null, "basetime": null, "endtime": null}']


def gen_fault(rng):
    if rng.random() < .15:
        return {"kind": "call", "fn": rng.choice(["wipe", "rmone", "noiseone", "truncone"]),
                "op": rng.choice(["any", "open_r", "mut", "read", "open_w"]), "role": "cache",
                "nth": rng.choice([0, 1, 2, 3, 5, 8, 13]), "arg": rng.randrange(1 << 20)}
    op = rng.choice(sorted(BY_OP))
    f = {"kind": rng.choice(BY_OP[op]), "op": op, "role": "cache",
         "nth": rng.choice([0, 0, 0, 1, 1, 2, 3, 5, 8]), "frac": rng.random()}
    if rng.random() < .4:
        f["sticky"] = True
    return f


def gen(rng, i, tier):
    fmt = rng.choice(["us", "us", "t9", "ns", "sys"])
    w = W.gen_world(rng, n=rng.choice([1, 3, 6, 12, 25]), fmt=fmt,
                    users=rng.sample(W.USER_EVENTS, rng.randrange(1, 4)))
    scopes = ("custom",) * 9 + ("sched",)
    base = hist.gen_spec(rng, w, scopes=scopes)
    steps = []
    same = rng.random()
    for k in range(rng.randrange(2, 6)):
        spec = dict(base) if rng.random() < same else hist.gen_spec(rng, w, scopes=scopes)
        st = {"spec": spec, "faults": [], "damage": []}
        r = rng.random()
        if r < .55:
            st["faults"] = [gen_fault(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        if k and r > .4:
            st["damage"] = [[rng.choice(DAMAGE), rng.randrange(1 << 20)]
                            for _ in range(rng.choice([1, 1, 2]))]
        steps.append(st)
    return {"world": w, "dat": fmt != "sys" and rng.random() < .2, "steps": steps}


def clear(path):
    from dst import core
    if os.path.islink(path) or os.path.isfile(path):
        seams._real["unlink"](path)
    elif os.path.isdir(path):
        for e in sorted(seams._real["listdir"](path)):
            clear(path + "/" + e)
        seams._real["rmdir"](path)


def damage(ctx, cdir, what, arg):
    """Returns whether it changed anything."""
    rng = random.Random(arg)
    if what == "rmcache":
        if not os.path.lexists(cdir):
            return False
        clear(cdir)
        return True
    if what == "cachefile":
        clear(cdir)
        ops.put(cdir, b"not a directory")
        return True
    if not os.path.isdir(cdir):
        if what in ("emptycache", "extra"):
            clear(cdir)
            seams._real["mkdir"](cdir)
            return True
        return False
    names = sorted(n for n in seams._real["listdir"](cdir) if not os.path.islink(cdir + "/" + n))
    if what == "extra":
        seams._real["mkdir"](cdir + "/zz_sub")if not os.path.exists(cdir + "/zz_sub") else None
        ops.put(cdir + "/zz_sub/file.csv", b"1,2\n")
        ops.put(cdir + "/Unknown.csv", b"Time,a\n1.0,2\n")
        return True
    if what == "emptycache":
        for n in names:
            clear(cdir + "/" + n)
        return True
    if not names:
        return False
    meta = cdir + "/metadata.json"
    if what == "rmmeta":
        if os.path.exists(meta):
            clear(meta)
            return True
        return False
    if what == "json":
        clear(meta)
        ops.put(meta, rng.choice(JSONS).encode())
        return True
    if what == "swap":
        files = [n for n in names if n != "metadata.json" and os.path.isfile(cdir + "/" + n)]
        if len(files) < 2:
            return False
        a, b = rng.sample(files, 2)
        da, db = ops.get(cdir + "/" + a), ops.get(cdir + "/" + b)
        ops.put(cdir + "/" + a, db)
        ops.put(cdir + "/" + b, da)
        return True
    n = rng.choice(names)
    p = cdir + "/" + n
    if what == "rm":
        clear(p)
        return True
    if what == "isdir":
        clear(p)
        seams._real["mkdir"](p)
        return True
    if not os.path.isfile(p):
        return False
    data = ops.get(p)
    k = int(len(data) * rng.random())
    if what == "trunc":
        data = data[:k]
    elif what == "empty":
        data = b""
    elif what == "zeros":
        data = data[:k] + b"\0" * (len(data) - k)
    elif what == "noise":
        data = bytes(rng.randrange(256) for _ in range(rng.choice([1, 10, 200])))
    elif what == "old":
        data = b"Time,__comm,__pid,__cpu,__line,a\n1.5,old,1,0,0,77\n2.5,old,1,0,1,78\n"
    ops.put(p, data)
    return True


def run(case, ctx):
    m = hist.Machine(ctx)
    path = m.put("trace", case["world"], case["dat"])
    cdir = "%s/.%s.cache" % (m.root, os.path.basename(path))
    hits = 0

    def call(f):
        fn, arg = f["fn"], f["arg"]
        if damage(ctx, cdir, {"wipe": "rmcache", "rmone": "rm", "noiseone": "noise",
                              "truncone": "trunc"}[fn], arg):
            ctx.fault("meanwhile-" + fn)
    for fn in ("wipe", "rmone", "noiseone", "truncone"):
        ctx.fs.callbacks[fn] = call
    for n, s in enumerate(case["steps"]):
        done = []
        for what, arg in s["damage"]:
            if damage(ctx, cdir, what, arg):
                ctx.fault("at-rest-" + what)
                done.append(what)
        ref = m.reference(s["spec"], path)
        got = m.hit(s["spec"], path, s["faults"])
        fired = ctx.fs.current.fired
        hits += len(fired) + len(done)
        m.same(got, ref, "load %d (cache damage: %s; failing operations: %s)" % (n, done, fired))
        cached = sum(bool(c.cached) for c in got[2].trace_classes) if got[0] == "ok" else -1
        ctx.stat("classes served from the cache", max(0, cached))
        ctx.stat("loads compared")
        ctx.covered(tuple(done), tuple(fired[:3]), min(cached, 2))
        ctx.check(ops.get(path) == m.content[path], "trace-changed",
                  "the trace file is no longer what it was")
    ctx.nontrivial = hits > 0
    ctx.sim_ns = W.span_ns(case["world"])

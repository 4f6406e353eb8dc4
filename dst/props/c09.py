"""C09: loading touches nothing but the trace's own cache and its own temporary files."""
import os

from dst import core, hist, ops, seams, world as W
from dst.props import c05, c04, c08

ID = "C09"
LEVEL = "exploration"
QUICK, THOROUGH = 3500, 40000
SHRINK = ("items", "steps", "events", "head", "faults", "neigh", "damage", "power")
SIMPLIFY = {"dat": [False], "normalize_time": [False], "nth": [0], "scope": ["custom"], "kind": ["EIO"],
            "path": [0]}
RULE = ("Traces with ordinary and awkward names (spaces, glob characters, leading dash, dots, non-ASCII, a "
        "name that is a prefix of another's) stand among neighbours: caches of other traces, files and "
        "directories with similar names, a cache path that is a symbolic link to somebody's directory, "
        "links inside the cache. 2-5 loads, by absolute, relative, dotted or linked paths or by directory, "
        "meet storage faults, input failures, crashes and power cuts. At every file operation: nothing is "
        "changed outside the trace's own cache and files the load itself made in the temporary directory; "
        "at the end every other file is as it was. Non-trivial: the cache was written, with neighbours.")
MEASURE = "(name, path style, fault, neighbour set) combinations"
REAL = ["trappy.FTrace/SysTrace with the cache", "pandas", "shutil, tempfile", "file contents on a scratch tree"]
STUB = ["system calls pass the simulator", "trace-cmd", "clock, pids, temp names"]
ASSUME = ["a link the user put inside the cache under the very name of a cache file is not considered"]

NAMES = ["trace", "my trace", "tr*ce", "-rf", "a.b.c", "été", "trace.cache", "x;y", "tra[c]e", "T",
         "trace.txt", "..hidden", "new\nline", "a'b", "metadata.json", "$HOME", "~"]
NEIGH = ["othercache", "bak", "prefix", "file", "trace.csv", "metadata", "parent", "tmpfile", "dircache",
         "link_in_cache", "dirlink_in_cache", "cache_is_link", "txtdir", "emptydir", "homefile"]


def gen(rng, i, tier):
    fmt = rng.choice(["us", "us", "t9", "sys"])
    w = W.gen_world(rng, n=rng.choice([1, 3, 6]), fmt=fmt,
                    users=rng.sample(W.USER_EVENTS, rng.randrange(1, 3)))
    dat = fmt != "sys" and rng.random() < .35
    base = hist.gen_spec(rng, w, scopes=("custom",))
    steps = []
    same = rng.random()
    for k in range(rng.randrange(2, 6)):
        spec = dict(base) if rng.random() < same else hist.gen_spec(rng, w, scopes=("custom",))
        st = {"spec": spec, "faults": [], "damage": [], "tc": None, "line": 0, "power": [],
              "path": rng.choice([0, 0, 1, 2, 3, 4, 5])}
        r = rng.random()
        if r < .3:
            st["faults"] = [c05.gen_fault(rng) for _ in range(rng.choice([1, 1, 2]))]
        elif r < .5:
            g = c04.gen_strike(rng)
            st["faults"], st["line"], st["power"] = g["faults"], g["line"], g["power"]
        elif r < .65:
            st["faults"], st["tc"] = c08.gen_faults(rng, dat)
        if rng.random() < .25:
            st["damage"] = [[rng.choice(c05.DAMAGE), rng.randrange(1 << 20)]]
        if rng.random() < .15:
            st["change"] = True
        steps.append(st)
    return {"world": w, "dat": dat, "steps": steps,
            "name": rng.choice(NAMES) if rng.random() < .7 else "trace",
            "neigh": rng.sample(NEIGH, rng.randrange(2, 7))}


def run(case, ctx):
    fs = ctx.fs
    m = hist.Machine(ctx)
    w = case["world"]
    name = case["name"]
    path = m.put(name, w, case["dat"])
    b = os.path.basename(path)
    cdir = "%s/.%s.cache" % (m.root, b)
    mk = seams._real["mkdir"]
    precious = ctx.dir + "/precious"
    mk(precious)
    ops.put(precious + "/thesis.txt", b"all my work")
    ops.put(precious + "/metadata.json", b"{}")
    mk(precious + "/sub")
    ops.put(precious + "/sub/data.csv", b"1,2,3")
    r = m.root
    linked = False
    for n in case["neigh"]:
        if n == "othercache":
            for o in ("." + b + "2.cache", ".z" + b + ".cache", ".other.txt.cache"):
                mk(r + "/" + o)
                ops.put(r + "/" + o + "/metadata.json", b'{"md5sum": "x"}')
                ops.put(r + "/" + o + "/EvtAlpha.csv", b"x")
        elif n == "bak":
            mk(cdir + ".bak")
            ops.put(cdir + ".bak/a.csv", b"1")
        elif n == "prefix":
            ops.put(r + "/." + b, b"hidden")
            ops.put(r + "/" + b + ".cache", b"not hidden")
        elif n == "file":
            ops.put(r + "/notes.md", b"notes")
        elif n == "trace.csv":
            ops.put(r + "/EvtAlpha.csv", b"mine")
        elif n == "metadata":
            if b != "metadata.json":
                ops.put(r + "/metadata.json", b"{}")
        elif n == "parent":
            ops.put(ctx.dir + "/metadata.json", b"{}")
        elif n == "tmpfile":
            ops.put(ctx.dir + "/tmp/tmpabc", b"somebody's")
            mk(ctx.dir + "/tmp/dir")
            ops.put(ctx.dir + "/tmp/dir/x", b"x")
        elif n == "dircache":
            mk(r + "/.cache")
            ops.put(r + "/.cache/x", b"x")
        elif n == "cache_is_link":
            seams._real["symlink"](precious, cdir)
            linked = True
        elif n == "txtdir":
            mk(r + "/sub")
            ops.put(r + "/sub/a", b"a")
        elif n == "emptydir":
            mk(r + "/empty")
        elif n == "homefile":
            ops.put(ctx.dir + "/home/.bashrc", b"x")
    mk(ctx.dir + "/else")
    seams._real["symlink"](r, ctx.dir + "/else/lnk")

    def styles(k):
        os.chdir(ctx.dir + "/home")
        if k == 1:
            os.chdir(r)
            return b
        if k == 2:
            os.chdir(r)
            return "./" + b
        if k == 3:
            return r + "/../traces/" + b
        if k == 4 and name == "trace" and w["fmt"] != "sys":
            os.chdir(r)
            return "."
        if k == 5:
            return ctx.dir + "/else/lnk/" + b
        return path

    own_tmp = set()
    refroot = ctx.dir + "/ref"

    def real(p):
        # the linked directory is the traces directory
        l = ctx.dir + "/else/lnk/"
        return r + "/" + p[len(l):] if p.startswith(l) else p

    def watch(op, p):
        p = real(p)
        if op not in seams.MUT or p.startswith(refroot):
            return
        if p == cdir or p.startswith(cdir + os.sep):
            return
        if p.startswith(ctx.dir + "/tmp/"):
            if p in own_tmp:
                return
            if op in ("open_w", "mkdir") and not os.path.lexists(p):
                own_tmp.add(p)
                return
        watch.bad.append("%s %s" % (op, p[len(ctx.dir):]))
    watch.bad = []

    def rest():
        t = ops.tree(ctx.dir)
        rel = cdir[len(ctx.dir) + 1:]
        out = {}
        for k, v in t.items():
            if k == rel and v[0] != "link" or k.startswith(rel + "/") or k == "ref" or k.startswith("ref/"):
                continue
            if ctx.dir + "/" + k in own_tmp and crashed[0]:
                continue
            out[k] = v
        return out
    crashed = [False]
    before = rest()
    wrote = False

    def call(f):
        if not os.path.islink(cdir) and c05.damage(ctx, cdir, {
                "wipe": "rmcache", "rmone": "rm", "noiseone": "noise", "truncone": "trunc"}[f["fn"]], f["arg"]):
            ctx.fault("meanwhile-" + f["fn"])
    for fn in ("wipe", "rmone", "noiseone", "truncone"):
        fs.callbacks[fn] = call
    fs.on_op = watch
    for n, s in enumerate(case["steps"]):
        if not os.path.islink(cdir):
            for what, arg in s["damage"]:
                if c05.damage(ctx, cdir, what, arg):
                    ctx.fault("at-rest-" + what)
            if os.path.isdir(cdir):
                for kind in ("link_in_cache", "dirlink_in_cache"):
                    if kind in case["neigh"] and not os.path.lexists(cdir + "/" + kind):
                        seams._real["symlink"](precious + ("/thesis.txt" if kind[0] == "l" else ""),
                                               cdir + "/" + kind)
        if s.get("change"):
            fs.on_op = None
            m.put(name, dict(w, items=w["items"] + [["j", "# end %d" % n]]), case["dat"])
            before = dict(before, **{path[len(ctx.dir) + 1:]: ("file", m.content[path])})
            fs.on_op = watch
        m.tc.fail = dict(s["tc"]) if s["tc"] else None
        p = styles(s["path"])
        # rmtree's own test for a link is beyond what trappy can protect
        faults = [f for f in s["faults"] if not linked or f["op"] not in ("any", "stat")]
        got = m.hit(s["spec"], p, faults, s["line"])
        m.tc.fail = None
        fired = fs.current.fired
        if got[0] == "crash":
            crashed[0] = True
            m.restart(s["power"] if got[1] == "power" else None)
        elif fired and any(f[0] == "intr" or f[1] == "unlink" for f in fired):
            crashed[0] = True          # may well leave its temporary file
        os.chdir(ctx.dir + "/home")
        ctx.check(not watch.bad, "touched", lambda: "load %d (%s, faults %s) changes %s"
                  % (n, got[0], fired, watch.bad[:5]))
        now = rest()
        d = ops.diff(now, before)
        ctx.check(not d, "changed", lambda: "after load %d (%s, faults %s): %s" % (n, got[0], fired, d))
        wrote = wrote or os.path.isdir(cdir)
        ctx.covered(name, s["path"], fired[:1], tuple(case["neigh"][:2]))
        ctx.stat("loads watched")
        ctx.stat("loads that succeeded", got[0] == "ok")
    ctx.nontrivial = wrote and bool(case["neigh"])
    ctx.sim_ns = W.span_ns(w)

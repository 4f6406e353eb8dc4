"""C14: the scripts of interactive plots are installed whole or not at all."""
import http.client
import io
import os
import socket
import urllib.error
import urllib.request

from dst import core, ops, sched, seams

ID = "C14"
LEVEL = "exploration"
QUICK, THOROUGH = 3500, 50000
SHRINK = ("old", "users", "steps", "net", "pre", "faults")
SIMPLIFY = {"old": [[]], "mode": ["length"], "chunk": [100000], "lines": [False], "power": [None]}
RULE = ("Where older scripts may be, 1-3 notebooks of one user each view 1-3 interactive plots, which installs the plot's scripts: some come from "
        "web servers (real urllib and http.client over a simulated socket), some from the package. The network refuses, "
        "times out, resets, truncates and answers with errors; the disk fills, fails and is read-only for a while; "
        "notebooks are killed or interrupted, the power fails; a seeded schedule switches between notebooks at file "
        "and network operations. Whenever an install returns, and from then on, every script of the plot is byte for byte what its source holds; a "
        "failure is reported as ImportError or OSError and is repaired by the next undisturbed install; what is "
        "installed needs no network. Non-trivial: a fault hit an install or two installs overlapped, and a later install succeeded.")
MEASURE = "(plot, fault kinds, transfer mode, notebooks) combinations"
REAL = ["trappy.plotter.IPythonConf", "urllib, http.client, shutil", "jupyter_core paths"]
STUB = ["the web servers and sockets", "system calls pass the simulator", "package directory is a copy in scratch",
        "scheduler, clock, temp names"]
ASSUME = ["a server that reports a length or uses chunks reports it truthfully", "rename is atomic and ordered after fsync"]


def body(url):
    n = 3000 + 977 * (len(url) % 23)
    seedb = url.encode()
    return (b"/* %s */ " % seedb) * (n // (len(seedb) + 7))


class Stream(io.RawIOBase):
    """The receiving side of a simulated connection."""

    def __init__(self, net, data, die):
        self.net, self.data, self.die, self.pos = net, data, die, 0

    def readable(self):
        return True

    def readinto(self, b):
        self.net.point("recv")
        self.net.ctx.fs.tick(20 * 10 ** 6)
        n = min(len(b), self.net.chunk, len(self.data) - self.pos)
        if n <= 0:
            if self.die == "timeout":
                self.net.ctx.fs.tick(60 * 10 ** 9)
                raise socket.timeout("timed out")
            if self.die == "reset":
                raise ConnectionResetError(104, "Connection reset by peer")
            return 0
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Sock(object):
    def __init__(self, net, host):
        self.net, self.host, self.sent = net, host, b""

    def sendall(self, data):
        self.sent += data

    def makefile(self, mode, *a, **k):
        self.net.point("response")
        path = self.sent.split(b" ")[1].decode()
        data, die = self.net.answer("https://" + self.host + path)
        return io.BufferedReader(Stream(self.net, data, die), 512)

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def close(self):
        pass


class Net(object):
    """The network, and the web servers at its other end."""
    KINDS = ("refused", "dns", "connect-timeout", "timeout", "reset", "truncated", "http404", "http500", "empty-close")

    def __init__(self, ctx, plan, mode, chunk):
        self.ctx, self.plan, self.mode, self.chunk = ctx, list(plan), mode, chunk
        self.down = False
        self.fetches = 0
        self.scheduler = None
        self.now = None
        net = self

        class Conn(http.client.HTTPConnection):
            default_port = 443

            def connect(self):
                net.connect()
                self.sock = Sock(net, self.host)

        class H(urllib.request.HTTPSHandler):
            def https_open(self, req):
                return self.do_open(Conn, req)

        class H1(urllib.request.HTTPHandler):
            def http_open(self, req):
                return self.do_open(Conn, req)
        urllib.request.install_opener(urllib.request.build_opener(
            urllib.request.ProxyHandler({}), H(), H1()))

    def point(self, what):
        p = self.ctx.fs.proc()
        if p.dead:
            raise seams.SimCrash()
        if self.scheduler is not None:
            self.scheduler.point(what)
        if p.dead:
            raise seams.SimCrash()
        self.ctx.fs.tick()

    def connect(self):
        self.point("connect")
        self.fetches += 1
        fault = self.plan.pop(0) if self.plan else None
        if self.down:
            fault = ["dns", 0]
        p = self.ctx.fs.proc()
        p.net = fault
        if fault:
            self.ctx.fault("net-" + fault[0])
            p.fired.append(("net", fault[0], "net"))
            self.ctx.log("NET", fault[0])
            if fault[0] == "refused":
                raise ConnectionRefusedError(111, "Connection refused")
            if fault[0] == "dns":
                raise socket.gaierror(-3, "Temporary failure in name resolution")
            if fault[0] == "connect-timeout":
                self.ctx.fs.tick(120 * 10 ** 9)
                raise socket.timeout("timed out")

    def answer(self, url):
        fault, frac = (self.ctx.fs.proc().net or [None, 0])[:2]
        data = body(url)
        head = b"HTTP/1.1 200 OK\r\nContent-Type: application/javascript\r\n"
        if fault in ("http404", "http500"):
            data = b"<html>error</html>"
            return (b"HTTP/1.1 404 Not Found\r\n" if fault[-1] == "4" else b"HTTP/1.1 500 Oops\r\n") + \
                b"Content-Length: %d\r\n\r\n" % len(data) + data, None
        if fault == "empty-close":
            return b"", None
        if self.mode == "chunked":
            parts = [data[i:i + 1500] for i in range(0, len(data), 1500)]
            out = b"".join(b"%x\r\n" % len(x) + x + b"\r\n" for x in parts) + b"0\r\n\r\n"
            raw, h = out, head + b"Transfer-Encoding: chunked\r\n\r\n"
        else:
            raw, h = data, head + b"Content-Length: %d\r\n\r\n" % len(data)
        if fault in ("timeout", "reset", "truncated"):
            raw = raw[:int((len(raw) - 1) * frac)]
            if fault == "truncated":
                fault = None
        else:
            fault = None
        return h + raw, fault


def setup():
    from trappy.plotter import IPythonConf
    import jupyter_core.paths
    jupyter_core.paths.jupyter_data_dir()
    IPythonConf.add_web_base("")
    import trappy.plotter.EventPlot, trappy.plotter.ILinePlot    # noqa


def g_faults(rng):
    r = rng.random()
    if r < .45:
        return []
    role = rng.choice(["home", "home", "home", "package", "any"])
    op = rng.choice(["open_w", "write", "write", "mkdir", "rename", "read", "open_r", "close_w", "stat", "chmod", "mut", "any"])
    kind = {"open_w": ["EMFILE", "EACCES", "ENOSPC", "EROFS"], "write": ["ENOSPC", "EIO", "EDQUOT", "short", "mem"],
            "mkdir": ["EACCES", "ENOSPC", "EROFS"], "rename": ["EACCES", "ENOSPC", "EIO"], "read": ["EIO", "mem"],
            "open_r": ["EMFILE", "EACCES"], "close_w": ["EIO", "ENOSPC"], "stat": ["EACCES", "EIO"], "chmod": ["EPERM"],
            "mut": ["ENOSPC", "EROFS"], "any": ["EIO", "mem"]}[op]
    kind += ["kill", "power", "intr"] if op != "stat" else ["kill"]
    return [{"kind": rng.choice(kind), "op": op, "role": role,
             "nth": rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 20]), "frac": rng.random(), "sticky": rng.random() < .2}]


def gen(rng, i, tier):
    users = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        steps = []
        for _ in range(rng.randrange(1, 4)):
            steps.append({"plot": rng.choice(["ILinePlot", "EventPlot"]), "faults": g_faults(rng), "line": 0})
            if rng.random() < .1:
                steps[-1]["line"] = int(2 ** rng.uniform(0, 7))
        users.append({"steps": steps})
    net = []
    for _ in range(rng.choice([0, 3, 8])):
        net.append([rng.choice(Net.KINDS), rng.choice([0, .01, rng.random(), rng.random(), 1])] if rng.random() < .4 else None)
    return {"users": users, "net": net, "mode": rng.choice(["length", "chunked"]),
            "old": [[rng.choice(["ILinePlot", "EventPlot"]), rng.randrange(3), rng.choice([0, 100, 9000])]
                    for _ in range(rng.choice([0, 0, 1, 3]))],
            "chunk": rng.choice([1000, 4000, 100000]), "mkdirs": rng.random() < .5,
            "power": [rng.randrange(500) for _ in range(4)],
            "pre": sorted([rng.randrange(1, rng.choice([20, 100, 400])), rng.randrange(3)]
                          for _ in range(rng.choice([0, 3, 10, 40])))}


def run(case, ctx):
    from trappy.plotter import IPythonConf as I
    fs = ctx.fs
    pkg = ctx.dir + "/package/plotter"
    src = os.path.dirname(I.__file__)
    for sub, name in (("js", "ILinePlot.js"), ("js", "EventPlot.js"), ("css", "EventPlot_help.jpg"), ("css", "EventPlot.css")):
        d = pkg + "/" + sub
        if not os.path.isdir(d):
            os.makedirs(d)
        with seams._real_io_open(src + "/" + sub + "/" + name, "rb") as f:
            ops.put(d + "/" + name, f.read()[:4000])
    I.__file__ = pkg + "/IPythonConf.py"
    os.environ.pop("JUPYTER_DATA_DIR", None)
    os.environ.pop("JUPYTER_PREFER_ENV_PATH", None)
    base = ctx.dir + "/home/.local/share/jupyter/nbextensions/plotter_scripts"
    if case["mkdirs"]:
        os.makedirs(base)
    want = {}
    for plot in ("ILinePlot", "EventPlot"):
        want[plot] = {}
        for r in I.IPLOT_RESOURCES[plot]:
            want[plot][os.path.basename(r)] = body(r) if r.startswith("http") else ops.get(pkg + "/" + r)
    for plot, k, size in case["old"]:
        # another version of TRAPpy was used here
        local = [r for r in I.IPLOT_RESOURCES[plot] if not r.startswith("http")]
        if k < len(local):
            if not os.path.isdir(base + "/" + plot):
                os.makedirs(base + "/" + plot)
            ops.put("%s/%s/%s" % (base, plot, os.path.basename(local[k])), b"// old\n" * (size // 7))
            ctx.fault("older script installed")
    net = Net(ctx, case["net"], case["mode"], case["chunk"])
    done = set()
    problems = []
    stats = {"hit": 0, "after": 0, "live": 0, "overlap": 0}

    def complete(plot):
        bad = []
        for name, data in sorted(want[plot].items()):
            try:
                got = ops.get("%s/%s/%s" % (base, plot, name))
            except OSError as e:
                bad.append("%s: %s" % (name, e.strerror))
                continue
            if got != data:
                bad.append("%s: %d bytes of %d" % (name, len(got), len(data)))
        return bad

    def watch(op, path):
        for plot in done:
            if path.startswith(base + "/" + plot) and op in seams.MUT | {"read"}:
                bad = complete(plot)
                if bad and not problems:
                    problems.append(("not-whole", "%s was installed, and during another install: %s" % (plot, bad)))
    fs.on_op = watch

    def install(plot, who, faults, line):
        p = fs.proc()
        p.arm(faults)
        p.fired = []
        li = sched.LineInterrupt(core.REPO + "/trappy/plotter", line, KeyboardInterrupt) if line else None
        err = None
        had = plot in done
        stats["live"] += 1
        stats["overlap"] += stats["live"] > 1
        try:
            if li:
                with li:
                    I.iplot_install(plot)
            else:
                I.iplot_install(plot)
        except seams.SimCrash:
            raise
        except (Exception, KeyboardInterrupt) as e:
            err = e
        finally:
            stats["live"] -= 1
            p.faults = []
        if p.dead:
            raise seams.SimCrash()
        if li and li.fired:
            p.fired.append(("intr", "line", "code"))
            ctx.fault("interrupt@line")
        fired = list(p.fired)
        stats["hit"] += bool(fired)
        what = "%s installs %s (faults %s)" % (who, plot, fired)
        ctx.log("install", who, plot, type(err).__name__, len(fired))
        ctx.covered(plot, sorted(set(f[:2] for f in fired))[:2], case["mode"], len(case["users"]), type(err).__name__, had)
        if err is None:
            bad = complete(plot)
            if bad:
                problems.append(("incomplete", "%s: it succeeds, and %s" % (what, bad)))
            done.add(plot)
            stats["after"] += bool(stats["hit"] or stats["overlap"])
        else:
            ctx.stat("failed: " + type(err).__name__)
            if not fired:
                problems.append(("failed", "%s: raises %s: %s" % (what, type(err).__name__, err)))
            elif set(f[0] for f in fired) == {"net"} and not isinstance(err, ImportError):
                problems.append(("other-error", "%s: raises %s: %s instead of ImportError" % (what, type(err).__name__, err)))
            elif any(f[0] == "intr" for f in fired) and not isinstance(err, KeyboardInterrupt) and len(fired) == 1:
                problems.append(("interrupt-lost", "%s: raises %s" % (what, err)))
            if set(f[0] for f in fired) == {"net"}:
                junk(what)

    def junk(what):
        # nothing but the scripts themselves once every process has finished undisturbed
        if stats["live"] or any(q.dead for q in fs.procs) or tainted[0]:
            return
        for plot in want:
            d = base + "/" + plot
            if os.path.isdir(d):
                left = sorted(set(seams._real["listdir"](d)) - set(want[plot]))
                if left:
                    problems.append(("left", "%s: leaves %s" % (what, left)))
    tainted = [False]
    if any(s["faults"] or s["line"] for u in case["users"] for s in u["steps"]):
        tainted[0] = True

    def user(n, u):
        def go():
            for s in u["steps"]:
                install(s["plot"], "notebook %d" % n, s["faults"], s["line"])
        return go

    many = len(case["users"]) > 1
    if many:
        s = sched.Scheduler(ctx, case["pre"])
        for n, u in enumerate(case["users"]):
            if n:
                fs.new_proc()
            s.spawn(user(n, u))
        # a line interrupt is for one notebook alone
        for u in case["users"]:
            for st in u["steps"]:
                st["line"] = 0
        fs.scheduler = net.scheduler = s
        out = s.run()
        fs.scheduler = net.scheduler = None
        for r in out:
            if r is not None and r[0] == "exc" and not isinstance(r[1], seams.SimCrash):
                raise r[1]
    else:
        try:
            user(0, case["users"][0])()
        except seams.SimCrash:
            pass
    power = any(k[0] == "power" for p in fs.procs for k in p.fired)
    if power:
        fs.on_op = None
        fs.power_loss(case["power"])
        fs.on_op = watch
        # the directory entry of a script from the package may be what was lost
        done.clear()
    for cls, msg in problems:
        ctx.violate(cls, msg)
    # a new session, and no more faults: everything can be installed
    fs.current = fs.new_proc()
    net.plan = []
    for plot in ("ILinePlot", "EventPlot"):
        install(plot, "a later session", [], 0)
    # and then needs no network
    net.down = True
    n = net.fetches
    for plot in ("EventPlot", "ILinePlot"):
        install(plot, "a session without a network", [], 0)
    for cls, msg in problems:
        ctx.violate(cls, msg)
    junk("in the end")
    for cls, msg in problems:
        ctx.violate(cls, msg)
    ctx.stat("installs with a fault", stats["hit"])
    ctx.nontrivial = stats["after"] > 0
    ctx.sim_ns = fs.clock_ns - 1500000000 * 10 ** 9

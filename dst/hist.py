"""Histories of loads over a small directory of traces, with a reference load.

The reference of a load is the same load of the same bytes, made in a fresh
directory with the cache switched off and no fault: what a first-time user sees.
"""
import json
import os
import re

from dst import core, ops, sched, seams, world as W

DAT_MAGIC = b"SIMDAT1\n"


def dat_bytes(w):
    text = json.dumps(w, sort_keys=True)
    # stretches without events take their room here too
    return DAT_MAGIC + re.sub(r'\["j", "#pad (\d+)"\]', lambda p: p.group(0) + " " * int(p.group(1)), text).encode()


def raw_data(item):
    k, a = item[5], item[6]
    if k == "user":
        return " ".join("%s=%s" % (n, hex(W.cast(v)) if isinstance(W.cast(v), int) and
                                   W.cast(v) >= 0 else v) for n, v in a[1]) + " raw=1"
    return None


def pretty_data(item):
    """What trace-cmd prints for an event without -r."""
    k, a = item[5], item[6]
    if k == "sched_switch":
        return "%s:%s [%s] %s ==> %s:%s [%s] prev=1" % (a[0], a[1], a[2], a[3], a[4], a[5], a[6])
    return None


def report(w, raw_events):
    lines = []
    for it in w["items"]:
        if it[0] == "e":
            ev = W.event_of(it)
            data = raw_data(it) if ev in raw_events else pretty_data(it)
            lines.append(W.line_of(w["fmt"], it, data))
        else:
            lines.append(it[1])
    return ("\n".join(["version = 6", "cpus=%d" % w["ncpu"]] + lines) + "\n").encode()


class TraceCmd(object):
    """A stand-in for trace-cmd; `fail` makes it misbehave."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.fail = None
        self.calls = 0

    def __call__(self, argv):
        self.calls += 1
        f = self.fail
        if f is not None and not f.get("sticky"):
            self.fail = None
        if f is not None:
            self.ctx.fault("trace-cmd:" + f["kind"])
            if f["kind"] == "missing":
                raise FileNotFoundError(2, "No such file or directory", "trace-cmd")
            if f["kind"] in ("EACCES", "ENOMEM", "EAGAIN", "EMFILE"):
                import errno
                n = getattr(errno, f["kind"])
                raise OSError(n, os.strerror(n), "trace-cmd")
        if len(argv) < 2 or argv[1] != "report":
            return b"", b"usage", 1
        raws, path, i = [], None, 2
        while i < len(argv):
            if argv[i] == "-r":
                raws.append(argv[i + 1])
                i += 2
                continue
            if not argv[i].startswith("-"):
                path = argv[i]
            i += 1
        try:
            data = ops.get(path)
        except OSError:
            return b"", b"no such file", 255
        if not data.startswith(DAT_MAGIC):
            return b"", b"not a trace file", 255
        out = report(json.loads(data[len(DAT_MAGIC):].decode()), raws)
        if f is not None:
            k = int(len(out) * f.get("frac", .5))
            if f["kind"] == "exit":
                return out[:k], b"trace-cmd: error", f.get("rc", 1)
            if f["kind"] == "signal":
                return out[:k], b"", -f.get("sig", 9)
            if f["kind"] == "call":
                self.ctx.fs.callbacks[f["fn"]](f)
        return out, b"", 0


class Machine(object):
    def __init__(self, ctx):
        import trappy
        self.ctx = ctx
        self.root = ctx.dir + "/traces"
        self.nref = 0
        self.tc = TraceCmd(ctx)
        seams.SimPopen.programs = {"trace-cmd": self.tc}
        self.classes = (trappy.FTrace, trappy.SysTrace)
        self.reg = {}
        self.content = {}

    # -- traces
    def ext(self, w, dat):
        return ".html" if w["fmt"] == "sys" else ".dat" if dat else ".txt"

    def put(self, name, w, dat=False):
        """(Re)write a trace; returns its path."""
        path = "%s/%s%s" % (self.root, name, self.ext(w, dat))
        data = dat_bytes(w) if dat else W.render(w)
        ops.put(path, data)
        self.content[path] = data
        return path

    # -- parsers
    def apply_reg(self, op):
        """["reg", Class, word, scope, raw] or ["unreg", Class]"""
        import trappy
        if op[0] == "reg":
            if op[1] in self.reg:
                trappy.unregister_dynamic_ftrace(self.reg.pop(op[1])) \
                    if hasattr(trappy, "unregister_dynamic_ftrace") else \
                    trappy.ftrace.GenericFTrace.unregister_parser(self.reg.pop(op[1]))
            self.reg[op[1]] = trappy.register_dynamic_ftrace(
                op[1], op[2], op[3], parse_raw=bool(op[4]))
        elif op[1] in self.reg:
            trappy.ftrace.GenericFTrace.unregister_parser(self.reg.pop(op[1]))

    # -- loads
    def attempt(self, spec, path):
        """("ok", canonical result, trace) or ("exc", type, text)"""
        got = self._load(spec, path)
        return got if got[0] != "ok" else ("ok", ops.canon(got[2]), got[2])

    def _load(self, spec, path):
        try:
            return ("ok", None, ops.load(spec, path))
        except (Exception, KeyboardInterrupt) as e:
            return ("exc", type(e).__name__, "%s" % e)

    def hit(self, spec, path, faults, line=0):
        """A load that meets faults: attempt()'s result or ("crash", kind)."""
        fs = self.ctx.fs
        p = fs.current
        p.arm(faults)
        p.fired = []
        self.li = None
        try:
            if line:
                self.li = sched.LineInterrupt(core.REPO + "/trappy", line, KeyboardInterrupt)
                with self.li:
                    got = self._load(spec, path)
                if self.li.fired:
                    self.ctx.fault("interrupt@line")
                    p.fired.append(("intr", "line", "code"))
            else:
                got = self._load(spec, path)
        except seams.SimCrash:
            got = ("crash", "kill")
        p.faults = []
        if got[0] == "ok" and not p.dead:
            got = ("ok", ops.canon(got[2]), got[2])
        if p.dead:
            # whatever the dying process still computed reaches nobody
            kinds = [k for k, _, _ in p.fired if k in ("kill", "power")]
            got = ("crash", kinds[0] if kinds else "kill")
        return got

    def restart(self, power=None):
        """The process is gone; a new one starts. power: what a power cut leaves."""
        fs = self.ctx.fs
        if power is not None:
            fs.power_loss(power)
        fs.current = fs.new_proc()

    def reference(self, spec, path, data=None):
        """The load a first-time user makes: no cache, no faults, fresh place."""
        fs = self.ctx.fs
        self.nref += 1
        d = "%s/ref/%d" % (self.ctx.dir, self.nref)
        os.makedirs(d)
        p = d + "/" + os.path.basename(path)
        ops.put(p, ops.get(path) if data is None else data)
        saved = (fs.scheduler, fs.chunks, fs.current, fs.bufsize, self.tc.fail)
        old = [c.__dict__.get("disable_cache") for c in self.classes]
        tracing, fs.current = fs.current, seams.Proc(3999)
        fs.scheduler, fs.chunks, fs.bufsize, self.tc.fail = None, None, None, None
        for c in self.classes:
            c.disable_cache = True
        try:
            return self.attempt(spec, p)
        finally:
            for c, o in zip(self.classes, old):
                if o is None:
                    del c.disable_cache
                else:
                    c.disable_cache = o
            fs.scheduler, fs.chunks, fs.current, fs.bufsize, self.tc.fail = saved

    def same(self, got, ref, what):
        """got must be what ref is: the same tables or the same failure."""
        ctx = self.ctx
        if ref[0] == "ok":
            ctx.check(got[0] == "ok", "load-failed",
                      lambda: "%s: raised %s: %s; a first-time load of the same trace succeeds"
                      % (what, got[1], got[2]))
            d = ops.diff(got[1], ref[1])
            ctx.check(not d, "differs", lambda: "%s differs from a first-time load: %s" % (what, d))
        else:
            ctx.check(got[0] == "exc", "no-error",
                      lambda: "%s succeeded, a first-time load raises %s: %s" % (what, ref[1], ref[2]))
            ctx.check(got[1] == ref[1], "other-error",
                      lambda: "%s raised %s: %s, a first-time load raises %s: %s"
                      % (what, got[1], got[2], ref[1], ref[2]))


def cache_dirs(root):
    return sorted(d.path for d in seams._real["scandir"](root)
                  if d.name.startswith(".") and d.name.endswith(".cache") and d.is_dir())


# ------------------------------------------------------------- generating specs
def gen_spec(rng, w, evs=None, scopes=("custom", "custom", "custom", "sched", "thermal", "all"),
             windows=.35):
    """Arguments of a load that make sense for this world."""
    kinds = sorted(set(W.attr_of(it) for it in W.events(w)))
    pool = list(evs) if evs is not None else kinds + ["evt_alpha", "cpu_idle", "sched_switch"]
    pool = sorted(set(pool))
    spec = {"tracer": "SysTrace" if w["fmt"] == "sys" else "FTrace",
            "scope": rng.choice(scopes),
            "events": rng.sample(pool, rng.randrange(0, min(4, len(pool)) + 1)),
            "normalize_time": rng.random() < .5}
    if spec["scope"] == "custom" and not spec["events"]:
        spec["events"] = [rng.choice(pool)]
    stamps = [W.stamp_value(w["fmt"], it[1]) for it in W.events(w)]
    if stamps and rng.random() < windows:
        lo, hi = rng.choice(stamps), rng.choice(stamps)
        lo, hi = min(lo, hi), max(lo, hi)
        if rng.random() < .3:
            hi = None
        if rng.random() < .5:
            spec["abs_window"] = [lo, hi]
        else:
            spec["window"] = [max(0, lo - stamps[0]), None if hi is None else max(0, hi - stamps[0])]
    return spec


def gen_reg(rng):
    r = rng.random()
    if r < .25:
        return ["unreg", rng.choice(["EvtAlpha", "EvtBeta", "MyMarker"])]
    cls, words = rng.choice([("EvtAlpha", ["evt_alpha:", "evt_alpha", "evt_gamma:"]),
                             ("EvtBeta", ["evt_beta:", "evt_alpha:"]),
                             ("MyMarker", ["my_marker:", "gpu_busy:"])])
    return ["reg", cls, rng.choice(words), rng.choice(["all", "sched", "thermal"]),
            rng.random() < .4]

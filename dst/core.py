"""Run machinery: seeds -> cases -> isolated deterministic runs -> verdicts.

A *case* is a JSON-able dict, generated from random.Random("<seed>/<prop>/<index>").
Running a case is a pure function of the case and of the code in /repo: every
schedule decision, fault position, clock reading and generated input is in it.
"""
import hashlib
import json
import os
import random
import select
import signal
import struct
import sys
import time as _time
import traceback

REPO = os.environ.get("TRAPPY_REPO", "/repo")
HANG_S = 90.0

_real_write = os.write
_real_read = os.read
_real_close = os.close
_monotonic = _time.monotonic


class Violation(Exception):
    """The property is broken in this run."""

    def __init__(self, cls, msg):
        super().__init__("%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class Skip(Exception):
    """The case is not a legal case (only met while minimising)."""


class Ctx(object):
    """What a run reports: an event log, counters and the verdict."""

    def __init__(self, directory):
        self.dir = directory
        self.events = []
        self.stats = {}
        self.faults = {}
        self.cover = set()
        self.nontrivial = False
        self.sim_ns = 0

    def log(self, *what):
        self.events.append(" ".join(str(w) for w in what))

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def covered(self, *key):
        self.cover.add("|".join(str(k) for k in key))

    def violate(self, cls, msg):
        raise Violation(cls, msg)

    def check(self, cond, cls, msg):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)

    def digest(self):
        h = hashlib.md5()
        for e in self.events:
            h.update(e.encode("utf-8", "backslashreplace"))
            h.update(b"\n")
        return h.hexdigest()


def case_rng(seed, prop, index):
    return random.Random("%s/%s/%s" % (seed, prop, index))


def gen_case(mod, seed, index, tier):
    rng = case_rng(seed, mod.ID, index)
    case = mod.gen(rng, index, tier)
    # normalise to what JSON keeps, so that replay runs the very same thing
    return json.loads(json.dumps(case))


# ---------------------------------------------------------------- child side
def _watch_lines(name):
    """For tools/reach.sh: note which lines of the subject ran."""
    mon, hit = sys.monitoring, set()
    subject = os.path.abspath(REPO) + os.sep + "trappy" + os.sep

    def line(code, n):
        if code.co_filename.startswith(subject):
            hit.add((code.co_filename[len(subject):], n))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, "reach")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    fd = os.open(name, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)

    def done():
        mon.set_events(mon.COVERAGE_ID, 0)
        _real_write(fd, "".join("%s:%d\n" % x for x in sorted(hit)).encode())
    return done


def _run_child(mod, case, directory, wfd, want_log):
    from dst import seams
    res = {}
    ctx = Ctx(directory)
    try:
        try:
            if os.environ.get("DST_REACH"):
                seen = _watch_lines(os.environ["DST_REACH"])
            seams.enter_child(ctx)
            mod.run(case, ctx)
            res["verdict"] = "ok"
        except Violation as v:
            res["verdict"] = "violation"
            res["cls"] = v.cls
            res["msg"] = v.msg[:6000]
        except Skip as s:
            res["verdict"] = "skip"
            res["msg"] = str(s)
        breach = seams.breaches()
        if breach and res["verdict"] in ("ok",):
            res["verdict"] = "violation"
            res["cls"] = "containment"
            res["msg"] = "effect outside the scratch world: " + "; ".join(breach[:5])
    except BaseException as e:
        res["verdict"] = "harness_error"
        res["msg"] = traceback.format_exc()[-6000:]
        if _raised_by_subject(e):
            # legal use of the code under test, and it raised
            res["verdict"] = "violation"
            res["cls"] = "uncaught"
        elif _raised_by_judging(e):
            # what the code under test gave is nothing the oracle can read
            res["verdict"] = "violation"
            res["cls"] = "unreadable-answer"
    seams.leave_child()
    if os.environ.get("DST_REACH"):
        seen()
    res["stats"] = ctx.stats
    res["faults"] = ctx.faults
    res["cover"] = sorted(hashlib.md5(c.encode("utf-8", "backslashreplace")).hexdigest()[:12]
                          for c in ctx.cover)
    res["nontrivial"] = bool(ctx.nontrivial)
    res["sim_ns"] = ctx.sim_ns
    res["digest"] = ctx.digest()
    if want_log:
        res["log"] = ctx.events[-4000:]
    data = json.dumps(res, default=str).encode()
    data = struct.pack(">I", len(data)) + data
    while data:
        n = _real_write(wfd, data)
        data = data[n:]


def _raised_by_subject(exc):
    """Is the innermost frame that is ours or the subject's one of the subject's?"""
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    subject = os.path.abspath(REPO) + os.sep + "trappy" + os.sep
    last = None
    tb = exc.__traceback__
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(here):
            # the simulated system calls stand below the subject
            if os.path.basename(name) not in ("seams.py", "sched.py"):
                last = "ours"
        elif name.startswith(subject):
            last = "subject"
        tb = tb.tb_next
    return last == "subject"


def _raised_by_judging(exc):
    """Did a property's own code stumble over what it was given?"""
    if not isinstance(exc, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)):
        return False
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    names = [f.f_code.co_filename for f, _ in traceback.walk_tb(exc.__traceback__)]
    ours = [os.path.basename(n) for n in names if n.startswith(here)]
    return ours[-1] not in ("core.py", "seams.py", "sched.py", "world.py", "hist.py")


def run_case(mod, case, base_dir, want_log=False):
    """Fork an isolated child, run the case, return its result dict."""
    directory = os.path.join(base_dir, "w")
    _rmtree(directory)
    os.makedirs(directory)
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            _real_close(rfd)
            _run_child(mod, case, directory, wfd, want_log)
        finally:
            os._exit(0)
    os.close(wfd)
    buf = b""
    deadline = _monotonic() + HANG_S
    hang = False
    while True:
        left = deadline - _monotonic()
        if left <= 0:
            hang = True
            break
        ready, _, _ = select.select([rfd], [], [], min(left, 5.0))
        if not ready:
            continue
        chunk = os.read(rfd, 1 << 16)
        if not chunk:
            break
        buf += chunk
        if len(buf) >= 4 and len(buf) >= 4 + struct.unpack(">I", buf[:4])[0]:
            break
    os.close(rfd)
    if hang:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    _rmtree(directory)
    if hang:
        return {"verdict": "hang", "cls": "no-progress",
                "msg": "the run did not finish within %d s" % HANG_S,
                "stats": {}, "faults": {}, "cover": [], "nontrivial": True,
                "sim_ns": 0, "digest": "hang"}
    if len(buf) < 4:
        return {"verdict": "died", "cls": "process-died",
                "msg": "the simulated process died, wait status %d" % status,
                "stats": {}, "faults": {}, "cover": [], "nontrivial": True,
                "sim_ns": 0, "digest": "died"}
    return json.loads(buf[4:].decode())


def is_violation(res):
    return res["verdict"] in ("violation", "hang", "died")


def _rmtree(path):
    """Remove a scratch tree (made by us) without following links."""
    if not path or not os.path.isabs(path):
        raise RuntimeError("refusing to remove %r" % path)
    try:
        entries = list(os.scandir(path))
    except FileNotFoundError:
        return
    except PermissionError:
        os.chmod(path, 0o700)
        entries = list(os.scandir(path))
    for e in entries:
        if e.is_dir(follow_symlinks=False):
            _rmtree(e.path)
        else:
            os.unlink(e.path)
    os.rmdir(path)


# ---------------------------------------------------------------- minimising
def _lists_in(obj, keys, path=()):
    """Paths of the lists that may be shortened, outermost first."""
    if isinstance(obj, dict):
        for k in sorted(obj):
            v = obj[k]
            if isinstance(v, list) and k in keys:
                yield path + (k,)
            for p in _lists_in(v, keys, path + (k,)):
                yield p
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            for p in _lists_in(v, keys, path + (i,)):
                yield p


def _get(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def _with(case, path, value):
    new = json.loads(json.dumps(case))
    _get(new, path[:-1])[path[-1]] = value
    return new


def minimise(mod, case, cls, base_dir, budget_s=60.0, budget_runs=250):
    """Delta-debug the lists and simplify the scalars the property names."""
    keys = set(getattr(mod, "SHRINK", ()))
    simple = getattr(mod, "SIMPLIFY", {})
    t_end = _monotonic() + budget_s
    runs = [0]

    def still(c):
        if runs[0] >= budget_runs or _monotonic() > t_end:
            return False
        runs[0] += 1
        r = run_case(mod, c, base_dir)
        return is_violation(r) and r.get("cls") == cls

    changed = True
    while changed and runs[0] < budget_runs and _monotonic() < t_end:
        changed = False
        idx = 0
        while True:
            paths = list(_lists_in(case, keys))
            if idx >= len(paths):
                break
            path = paths[idx]
            idx += 1
            cur = _get(case, path)
            chunk = max(1, len(cur) // 2)
            while chunk >= 1 and cur:
                i = 0
                while i < len(cur):
                    cand_list = cur[:i] + cur[i + chunk:]
                    cand = _with(case, path, cand_list)
                    if still(cand):
                        case, cur, changed = cand, cand_list, True
                    else:
                        i += chunk
                    if runs[0] >= budget_runs or _monotonic() > t_end:
                        return case, runs[0]
                chunk //= 2
        for key in sorted(simple):
            for path in _scalars_in(case, key):
                cur = _get(case, path)
                for v in simple[key]:
                    if v == cur:
                        break
                    cand = _with(case, path, v)
                    if still(cand):
                        case, changed = cand, True
                        break
    return case, runs[0]


def _scalars_in(obj, key, path=()):
    out = []
    if isinstance(obj, dict):
        for k in sorted(obj):
            if k == key:
                out.append(path + (k,))
            out.extend(_scalars_in(obj[k], key, path + (k,)))
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            out.extend(_scalars_in(v, key, path + (i,)))
    return out

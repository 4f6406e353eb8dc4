"""C01: loading a trace reports exactly the traced events, however its bytes arrive."""
import io

from dst import ops, world as W

ID = "C01"
LEVEL = "exploration"
QUICK, THOROUGH = 3000, 60000
SHRINK = ("items", "chunks", "head", "events")
SIMPLIFY = {"cut": [None], "chunks": [None], "mem": [None], "nl": [True]}
RULE = ("A case is a simulated machine (1-8 CPUs, tasks, clocks, 38 kinds of events, lost-event "
        "markers and junk lines) whose buffer is rendered as trace-cmd or systrace text, plus "
        "stream conditions: sizes of the raw reads (down to 1 byte), where the file ends, what "
        "the memory probe answers. Non-trivial: at least two events were compared cell by cell.")
MEASURE = "(format, set of event kinds, stream condition) combinations"
REAL = ["trappy.FTrace/SysTrace, every parser class", "pandas", "io buffering and decoding"]
STUB = ["raw file reads (delivery sizes)", "/proc/meminfo and getrusage", "temp names, clock"]
ASSUME = ["a line of an event contains no other event's unique word",
          "the truth is what the simulated machine put in its buffer"]

MEM = ["normal", "tiny", "missing", "garbage", "grow"]


def gen(rng, i, tier):
    w = W.gen_world(rng, junk=rng.choice([0, .05, .3]))
    case = {"world": w, "chunks": None, "cut": None, "mem": rng.choice(MEM)}
    r = rng.random()
    if r < .6:
        case["chunks"] = [rng.choice([1, 2, 3, 7, 17, 64, 100, 1000, 4096])
                          for _ in range(rng.randrange(1, 6))]
    if rng.random() < .3:
        case["cut"] = rng.random()
    kinds = sorted(set(W.attr_of(it) for it in W.events(w)))
    case["scope"] = rng.choice(["all", "all", "sched", "thermal", "custom"])
    evs = list(w["users"])
    if case["scope"] != "all":
        extra = [k for k in kinds if k not in evs]
        evs += rng.sample(extra, rng.randrange(0, len(extra) + 1))
    rng.shuffle(evs)
    case["events"] = evs
    case["colon"] = rng.random() < .3
    case["norm"] = rng.random() < .5
    case["cache"] = rng.random() < .5
    if rng.random() < .25:
        w["failed"] = [n for n in range(len(w["items"])) if rng.random() < .2]
    return case


class _Rss(object):
    def __init__(self, mode):
        self.mode, self.n = mode, 0

    def __call__(self, who):
        self.n += 1
        self.ru_maxrss = 1000 + (10**9 if self.n % 2 == 0 else 0) \
            if self.mode in ("grow", "tiny") else 1000
        return self


def wanted(case, known):
    names = set(known[case["scope"]]) if case["scope"] != "custom" else set()
    names.update(case["events"])
    return names


def run(case, ctx):
    import trappy
    import trappy.base
    w = case["world"]
    fs = ctx.fs
    data = W.render(w)
    world = w
    partial = False
    if case["cut"] is not None:
        cut = int(len(data) * case["cut"])
        head = data[:cut]
        whole = head.rfind(b"\n") + 1
        partial = whole != len(head)
        # which events are on complete lines
        n = 0
        acc = len(W.SYS_HEAD.encode()) if w["fmt"] == "sys" else \
            sum(len(h.encode()) + 1 for h in w["head"])
        for k in range(len(w["items"])):
            ln = len(W.line_at(w, k).encode()) + 1
            if acc + ln > whole:
                break
            acc += ln
            n += 1
        world = dict(w, items=w["items"][:n])
        data = head
        ctx.fault("file-ends-early")
    path = ctx.dir + "/traces/" + W.path_name(w)
    ops.put(path, data)
    fs.chunks = case["chunks"]
    mem = {"normal": "MemTotal: 8 kB\nMemFree:        4000000 kB\n", "tiny": "MemFree: 10 kB\n",
           "garbage": "MemFree only\n", "grow": "MemFree:   500000 kB\n"}

    def meminfo():
        if case["mem"] == "missing":
            ctx.fault("meminfo-missing")
            raise FileNotFoundError(2, "no /proc/meminfo")
        if case["mem"] != "normal":
            ctx.fault("meminfo-" + case["mem"])
        return io.StringIO(mem[case["mem"]])
    fs.meminfo = meminfo
    rss = _Rss(case["mem"])
    if hasattr(trappy.base, "getrusage"):
        trappy.base.getrusage = rss
    for c in (trappy.FTrace, trappy.SysTrace):
        c.disable_cache = not case["cache"]

    known = ops.scopes()
    names = wanted(case, known)
    evs = [e + (":" if case["colon"] and e not in w["users"] else "") for e in case["events"]]
    if case["colon"]:
        # the event's unique word is an accepted spelling too
        known = known["all"]
        evs = [known.get(e, e) for e in case["events"]]
    spec = {"tracer": "SysTrace" if w["fmt"] == "sys" else "FTrace", "scope": case["scope"],
            "events": evs, "normalize_time": case["norm"]}
    truth = W.truth(world, wanted=names, registered=set(case["events"]))
    nev = sum(len(v) for v in truth.values())
    try:
        trace = ops.load(spec, path)
    except Exception as e:
        if partial:
            ctx.stat("explicit error on a cut file")
            ctx.log("error", type(e).__name__)
            return
        # with nothing traced the loader has nothing to stand on
        ctx.violate("load-failed", "a complete trace does not load: %s: %s" % (type(e).__name__, e))
    have = set(trace.class_definitions)
    ctx.check(have >= names, "missing-table", lambda: "no table for %s" % sorted(names - have))
    ops.compare_truth(ctx, trace, truth, sorted(names), partial=partial)
    # times: exact for events that are later than all before them
    merged = ops.file_order(trace, sorted(names))
    if not partial:
        order = [(r["seq"], a) for a in truth for r in truth[a]]
        order.sort()
        ctx.check([a for _, a in order] == [m[1] for m in merged], "order",
                  lambda: "merged order of events differs from the file: %s vs %s"
                  % ([a for _, a in order][:20], [m[1] for m in merged][:20]))
    ctx.nontrivial = nev >= 2
    ctx.sim_ns = W.span_ns(w)
    ctx.stat("events compared", nev)
    ctx.covered(w["fmt"], ",".join(sorted(truth)), bool(case["chunks"]), partial, case["mem"])
    ctx.log("tables", ops.digest(ops.canon(trace)))

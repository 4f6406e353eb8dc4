"""A simulated traced machine: CPUs, tasks and clocks write events into a trace
buffer; rendering that buffer as text gives the bytes trappy reads, and the
buffer itself is the ground truth the tables are compared with."""
import math

# safe vocabulary: no word contains another event's unique word, none ends in ':'
COMMS = ["bash", "sshd", "kworker/0:1", "kworker/u8:2", "rcu_preempt", "my task",
         "a-b-12", "Binder:8_3", "x", "surfaceflinger", "été", "task_7", "<...>",
         "migration/3", "Chrome IOThread", "0day", "irq/42-foo", "init.rc", "<idle>", "1_2", "decade"]
STRS = ["R", "S", "D+", "R|K", "x", "foo", "bar-baz", "NA", "nan", "null", "None",
        "True", "007", "00000030", "0x", "1.50", "1e3", "-", "+5", "a,b", "'q'",
        '"dq"', "été", "#", "inf", "0b102", "N/A", "", "a;b", "\\n", "12ab", "-0",
        "000", "1.0", "#N/A", "NULL", "false", "1_000", "0x1_f", "cafe", "12e"]
FIELDS = ["a", "b", "c", "load", "util", "cpu", "pid", "comm", "state", "name",
          "x.y", "_priv", "val2", "index", "T", "size", "cap-max", "prio"]


def cast(v):
    if "_" in v:        # python would read 1_000 as a number
        return v
    try:
        return int(v, base=0)
    except ValueError:
        return v


def _num(rng):
    r = rng.random()
    if r < .55:
        return str(rng.randrange(0, 2000))
    if r < .65:
        return str(-rng.randrange(1, 4000))
    if r < .75:
        return hex(rng.randrange(0, 1 << 20))
    if r < .82:
        return str(rng.randrange(1 << 40, 1 << 52))
    if r < .88:
        return "0"
    return str(rng.randrange(1 << 30, 1 << 33))


# every kind: (attribute, event name printed, arg generator, text, expected fields)
class Kind(object):
    def __init__(self, attr, event, gen, text, exp, prefix=None, word=None):
        self.attr, self.event = attr, event
        self.gen, self.text, self.exp = gen, text, exp
        self.prefix = prefix or (event or "") + ":"
        self.word = word or event
        self.plain = False


def _simple(attr, event, fields, rename=None, fix=None):
    """k=v events; fields: list of (name, generator)."""
    def gen(rng):
        return [g(rng) for _, g in fields]

    def text(a):
        return " ".join("%s=%s" % (n, v) for (n, _), v in zip(fields, a))

    def exp(a):
        d = {}
        for (n, _), v in zip(fields, a):
            d[(rename or {}).get(n, n)] = cast(v)
        return fix(d) if fix else d
    k = Kind(attr, event, gen, text, exp)
    k.plain = True
    return k


def _comm(rng):
    return rng.choice(["bash", "sshd", "kworker/0:1", "my task", "swapper/0", "x", "été",
                       "Binder:8_3", "a-b-12"])


def _state(rng):
    return rng.choice(["R", "S", "D", "R+", "x", "0", "1", "2048"])


def _cpu(rng):
    return str(rng.randrange(0, 8))


def _small(rng):
    return str(rng.randrange(0, 1025))


def _pid(rng):
    return str(rng.randrange(0, 5000))


def _mask(rng):
    return rng.choice(["00000002", "00000030", "f0", "0", "000000f0", "ff", "3", "10", "00000001"])


KINDS = {}


def _add(name, kind):
    KINDS[name] = kind


_add("sched_switch", Kind(
    "sched_switch", "sched_switch",
    lambda r: [_comm(r), _pid(r), "120", _state(r), _comm(r), _pid(r), "120", r.randrange(2)],
    lambda a: "prev_comm=%s prev_pid=%s prev_prio=%s prev_state=%s%snext_comm=%s next_pid=%s next_prio=%s"
    % (a[0], a[1], a[2], a[3], " ==> " if a[7] else " ", a[4], a[5], a[6]),
    lambda a: {"prev_comm": cast(a[0]), "prev_pid": int(a[1]), "prev_prio": int(a[2]),
               "prev_state": cast(a[3]), "next_comm": cast(a[4]), "next_pid": int(a[5]),
               "next_prio": int(a[6])}))
_add("sched_wakeup", _simple("sched_wakeup", "sched_wakeup", [
    ("comm", _comm), ("pid", _pid), ("prio", _small), ("success", lambda r: "1"),
    ("target_cpu", lambda r: "%03d" % r.randrange(8))]))
_add("sched_wakeup_new", _simple("sched_wakeup_new", "sched_wakeup_new", [
    ("comm", _comm), ("pid", _pid), ("prio", _small), ("target_cpu", _cpu)]))
_add("sched_migrate_task", _simple("sched_migrate_task", "sched_migrate_task", [
    ("comm", _comm), ("pid", _pid), ("orig_cpu", _cpu), ("dest_cpu", _cpu)]))
_add("cpu_frequency", _simple("cpu_frequency", "cpu_frequency", [
    ("state", lambda r: str(r.randrange(200, 2000) * 1000)), ("cpu_id", _cpu)],
    {"state": "frequency", "cpu_id": "cpu"}))
_add("cpu_capacity", _simple("cpu_capacity", "cpu_capacity", [
    ("state", _small), ("cpu_id", _cpu)], {"state": "capacity", "cpu_id": "cpu"}))
_add("cpu_idle", _simple("cpu_idle", "cpu_idle", [
    ("state", lambda r: r.choice(["0", "1", "2", "4294967295"])), ("cpu_id", _cpu)],
    fix=lambda d: dict((k, -1 if v == 4294967295 else v) for k, v in d.items())))
_add("load_avg_sg", _simple("sched_load_avg_sg", "sched_load_avg_sg", [
    ("cpus", _mask), ("load", _small), ("utilization", _small)],
    fix=lambda d: dict(d, cpus="{:0>8}".format(d["cpus"]))))
_add("load_avg_task", _simple("sched_load_avg_task", "sched_load_avg_task", [
    ("comm", _comm), ("pid", _pid), ("load", _small), ("utilization", _small),
    ("avg_period", _num)]))
_add("load_avg_cpu", _simple("sched_load_avg_cpu", "sched_load_avg_cpu", [
    ("cpu", _cpu), ("load", _small), ("utilization", _small)]))
_add("contrib", _simple("sched_contrib_scale_factor", "sched_contrib_scale_f", [
    ("cpu", _cpu), ("freq_scale_factor", _small), ("cpu_scale_factor", _small)]))
_add("thermal", _simple("thermal", "thermal_temperature", [
    ("thermal_zone", lambda r: "cpu_thermal"), ("id", _cpu),
    ("temp_prev", lambda r: str(r.randrange(20000, 90000))),
    ("temp", lambda r: str(r.randrange(20000, 90000)))]))


def _arr(n, gen):
    def g(rng):
        return [gen(rng) for _ in range(rng.randrange(1, n + 1))]
    return g


_add("governor", Kind(
    "thermal_governor", "thermal_power_allocator",
    lambda r: [_cpu(r), [_small(r) for _ in range(3)], _small(r),
               [_small(r) for _ in range(3)], _num(r)],
    lambda a: "thermal_zone_id=%s req_power={%s} total_req_power=%s granted_power={%s} delta_temperature=%s"
    % (a[0], " ".join(a[1]), a[2], " ".join(a[3]), a[4]),
    lambda a: dict([("thermal_zone_id", int(a[0])), ("total_req_power", int(a[2])),
                    ("delta_temperature", cast(a[4]))] +
                   [("req_power%d" % i, int(v)) for i, v in enumerate(a[1])] +
                   [("granted_power%d" % i, int(v)) for i, v in enumerate(a[3])])))
_add("pidctl", _simple("pid_controller", "thermal_power_allocator_pid", [
    ("thermal_zone_id", _cpu), ("err", _num), ("err_integral", _num), ("p", _num),
    ("i", _num), ("d", _num), ("output", _num)]))
_add("cpu_in", Kind(
    "cpu_in_power", "thermal_power_cpu_get_power",
    lambda r: [r.choice(["0000000f", "000000f0", "00000000,0000000f"]), _small(r),
               [_small(r) for _ in range(r.choice([0, 2, 4, 4]))], _small(r)],
    lambda a: "cpus=%s freq=%s load={%s} power=%s" % (a[0], a[1], " ".join(a[2]), a[3]),
    lambda a: dict([("cpus", cast(a[0])), ("freq", int(a[1])), ("power", int(a[3]))] +
                   [("load%d" % i, int(v)) for i, v in enumerate(a[2])], **{"\0arr": [len(a[2])]})))
_add("cpu_out", _simple("cpu_out_power", "thermal_power_cpu_limit", [
    ("cpus", lambda r: r.choice(["0000000f", "000000f0"])), ("freq", _small),
    ("cdev_state", _cpu), ("power", _small)]))
_add("devfreq_in", _simple("devfreq_in_power", "thermal_power_devfreq_get_power", [
    ("type", lambda r: "gpu"), ("freq", _num), ("load", _small), ("power", _small)]))
_add("devfreq_out", _simple("devfreq_out_power", "thermal_power_devfreq_limit", [
    ("type", lambda r: "gpu"), ("freq", _num), ("cdev_state", _cpu), ("power", _small)]))
for _n, _ev in (("clk_on", "clock_enable"), ("clk_off", "clock_disable"),
                ("clk_rate", "clock_set_rate")):
    def _mk(ev):
        key = "rate" if ev == "clock_set_rate" else "state"
        return Kind(ev, ev,
                    lambda r: [r.choice(["gcc_clk", "video_core0_src", "pll-3"]), _num(r), _cpu(r)],
                    lambda a: "%s state=%s cpu_id=%s" % tuple(a),
                    lambda a: {"clk_name": a[0], key: cast(a[1]), "cpu_id": int(a[2])})
    _add(_n, _mk(_ev))


for _n, _ev, _f in (
        ("ext4_wb", "ext4_da_write_begin", ["dev", "ino", "pos", "len", "flags"]),
        ("ext4_we", "ext4_da_write_end", ["dev", "ino", "pos", "len", "copied"]),
        ("ext4_se", "ext4_sync_file_enter", ["dev", "ino", "parent", "datasync"]),
        ("ext4_sx", "ext4_sync_file_exit", ["dev", "ino", "ret"])):
    def _mk(ev, fields):
        return Kind(ev, ev,
                    lambda r: ["%d,%d" % (r.randrange(300), r.randrange(20))] +
                    [str(r.randrange(0, 100000)) for _ in fields[1:]],
                    lambda a: " ".join("%s %s" % (k, v) for k, v in zip(fields, a)),
                    lambda a: dict(("inode" if k == "ino" else k, v) for k, v in zip(fields, a)))
    _add(_n, _mk(_ev, _f))

_add("f2fs_wb", Kind(
    "f2fs_write_begin", "f2fs_write_begin",
    lambda r: [str(r.randrange(300)), str(r.randrange(20)), _num(r), _small(r)],
    lambda a: "dev = (%s,%s), ino = %s, pos = %s" % tuple(a),
    lambda a: {"dev": "(%s %s)" % (a[0], a[1]), "inode": cast(a[2]), "pos": cast(a[3])}))
_add("f2fs_we", Kind(
    "f2fs_write_end", "f2fs_write_end",
    lambda r: [str(r.randrange(300)), str(r.randrange(20)), _num(r), _small(r)],
    lambda a: "dev = (%s,%s), ino = %s, copied = %s" % tuple(a),
    lambda a: {"dev": "(%s %s)" % (a[0], a[1]), "inode": cast(a[2]), "copied": cast(a[3])}))
_add("f2fs_se", Kind(
    "f2fs_sync_file_enter", "f2fs_sync_file_enter",
    lambda r: [str(r.randrange(300)), str(r.randrange(20)), _small(r), _small(r)],
    lambda a: "dev = (%s,%s), ino = %s, i_mode = 0x81a4, i_size = %s" % tuple(a),
    lambda a: {"dev": "(%s %s)" % (a[0], a[1]), "inode": cast(a[2]), "i_mode": 0x81a4,
               "i_size": cast(a[3])}))
_add("function", _simple("function", "function", [
    ("ip", lambda r: hex(r.randrange(1 << 40))), ("parent_ip", lambda r: hex(r.randrange(1 << 40)))]))
_add("f2fs_sx", Kind(
    "f2fs_sync_file_exit", "f2fs_sync_file_exit",
    lambda r: [str(r.randrange(300)), str(r.randrange(20)), _small(r),
               r.choice(["needed", "not needed"]), _small(r)],
    lambda a: "dev = (%s,%s), ino = %s, checkpoint is %s, datasync = 0, ret = %s" % tuple(a),
    lambda a: {"dev": "(%s %s)" % (a[0], a[1]), "inode": cast(a[2]), "checkpoint": a[3],
               "datasync": 0, "ret": cast(a[4])}))
_add("sys_enter", Kind(
    "sys_enter", "sys_enter",
    lambda r: [str(r.randrange(300))] + ["%x" % r.choice([0, 1, 4, r.randrange(1 << 16),
                                                          r.randrange(1 << 40)]) for _ in range(6)],
    lambda a: "NR %s (%s)" % (a[0], ", ".join(a[1:])),
    lambda a: dict([("nr", int(a[0]))] + [("arg%d" % i, int(v, 16)) for i, v in enumerate(a[1:])])))
_add("sys_exit", Kind(
    "sys_exit", "sys_exit", lambda r: [str(r.randrange(300)), str(r.randrange(-40, 4000))],
    lambda a: "NR %s = %s" % tuple(a), lambda a: {"nr": int(a[0]), "ret": int(a[1])}))
_add("funcgraph_exit", _simple("funcgraph_exit", "funcgraph_exit", [
    ("func", lambda r: hex(r.randrange(1 << 40))), ("calltime", _num), ("depth", _cpu)]))
_add("funcgraph_entry", _simple("funcgraph_entry", "funcgraph_entry", [
    ("graph_ent.func", lambda r: hex(r.randrange(1 << 40))), ("depth", _cpu)]))

MARKS = ["hello world", "B", "x=1 y=2", "plain", "123", "007", "NA", "1.50", "frame 12 done",
         "E", "été", "a|b|c", "-", "tick", "0", "", "\"q\"", "a,b"]


def _mark_exp(a):
    return {"string": a[0]}


_add("mark", Kind("tracing_mark_write", "tracing_mark_write",
                  lambda r: [r.choice([m for m in MARKS if m])],
                  lambda a: a[0], _mark_exp, prefix="print: tracing_mark_write:",
                  word="tracing_mark_write:"))


def _atrace_text(a):
    if a[0] == "E" and a[1] is None:
        return "E"
    return "|".join(str(x) for x in a if x is not None)


_add("atrace", Kind(
    "tracing_mark_write", "tracing_mark_write",
    lambda r: (["E", None, None, None] if r.random() < .2 else
               ["B", r.randrange(1, 9000), r.choice(["draw", "a b", "été", "007", "f()"]), None]
               if r.random() < .5 else
               ["C", r.randrange(1, 9000), r.choice(["cnt", "VSYNC", "NA"]),
                r.choice(["1", "-4", "007", "x y", "1.50"])]),
    _atrace_text,
    lambda a: {"event": a[0], "pid": a[1], "func": a[2], "data": a[3]}))

# user events: name and fields are part of the arguments
_add("user", Kind(
    None, None, None,
    lambda a: " ".join("%s=%s" % (k, v) for k, v in a[1]),
    lambda a: dict((k, cast(v)) for k, v in a[1])))


# a marker written from userspace that a registered parser recognises
_add("umark", Kind(
    None, None, None,
    lambda a: " ".join("%s=%s" % (k, v) for k, v in a[1]),
    lambda a: dict((k, cast(v)) for k, v in a[1])))


def user_args(rng, name, fields=None, strs=STRS):
    """fields: optional fixed schema [(name, style)]"""
    out = []
    for fname, style in fields:
        if style == "maybe" and rng.random() < .4:
            continue
        if style == "int":
            v = str(rng.randrange(0, 1000))
        elif style == "num":
            v = _num(rng)
        elif style == "str":
            v = rng.choice(strs)
        elif style == "mix":
            v = rng.choice([_num(rng), rng.choice(strs)])
        elif style == "big":
            v = str(rng.choice([1 << 63, (1 << 64) - 1, 1 << 70, 5]))
        elif style == "multi":
            v = rng.choice(["foo bar", "my own task", "one"])
        else:
            v = _num(rng)
        out.append([fname, v])
    if not out:
        out.append([fields[0][0], "1"])
    return [name, out]


def user_schema(rng):
    n = rng.randrange(1, 5)
    names = rng.sample(FIELDS, n)
    return [(f, rng.choice(["int", "num", "str", "mix", "maybe", "big", "multi", "int"]))
            for f in names]


USER_EVENTS = ["evt_alpha", "evt_beta", "evt_gamma", "my_marker", "gpu_busy", "q0_depth"]

JUNK = ["CPU:3 [LOST 12 EVENTS]", "CPU 1 is empty", "# a comment line", "", "   ",
        "some text that is no event", "CPU:0 [EVENTS DROPPED]",
        "trace-cmd: warning", "version = 7", "   [000] broken line"]


# --------------------------------------------------------------- generation
def gen_world(rng, n=None, fmt=None, kinds=None, users=None, ties=.1, back=.05,
              junk=.05, marks=None, t0=None):
    """Let the machine run for n events; returns the JSON description."""
    fmt = fmt or rng.choice(["us", "us", "t9", "ns", "sys"])
    n = n if n is not None else rng.choice([1, 2, 3, 5, 8, 13, 30, 60, 120])
    if kinds is None:
        pool = [k for k in KINDS if k not in ("user", "umark", "atrace", "mark")]
        kinds = rng.sample(pool, rng.randrange(1, min(9, len(pool))))
    kinds = list(kinds)
    if marks is None:
        marks = rng.random() < .4
    if marks:
        kinds.append("atrace" if fmt == "sys" else "mark")
    if users is None:
        users = rng.sample(USER_EVENTS, rng.randrange(0, 3))
    schemas = {u: user_schema(rng) for u in users}
    ncpu = rng.choice([1, 2, 4, 8])
    tasks = [[rng.choice(COMMS), rng.randrange(0, 30000)] for _ in range(rng.randrange(1, 6))]
    unit = 1000 if fmt in ("us", "sys") else 1
    t = t0 if t0 is not None else rng.choice(
        [rng.randrange(1, 10**6) * 1000, rng.randrange(10**9, 10**12) * 1000 // 1000 * 1000,
         rng.randrange(10**14, 9 * 10**14) * 10])
    items = []
    cands = kinds + ["user:" + u for u in users]
    if not cands:
        cands = ["sched_wakeup"]
    for _ in range(n):
        r = rng.random()
        if r < ties:
            dt = 0
        elif r < ties + back:
            dt = -rng.randrange(1, 50000)
        else:
            dt = rng.choice([1, 2, 10, 1000, 5000, 10**6, 10**9, rng.randrange(1, 10**7)])
        t = max(1000, t + dt * (unit if dt > 0 and dt < 1000 else 1))
        if rng.random() < junk:
            items.append(["j", rng.choice(JUNK)])
        k = rng.choice(cands)
        comm, pid = rng.choice(tasks)
        cpu = rng.randrange(ncpu)
        if k.startswith("user:"):
            u = k[5:]
            args = user_args(rng, u, schemas[u])
            k = "umark" if u == "my_marker" else "user"
        else:
            args = KINDS[k].gen(rng)
        items.append(["e", t, cpu, comm, pid, k, args])
    return {"fmt": fmt, "ncpu": ncpu, "items": items,
            "head": rng.choice([[], ["version = 6", "cpus=%d" % ncpu], ["cpus=%d" % ncpu]]),
            "users": list(users), "nl": rng.random() < .8}


# --------------------------------------------------------------- rendering
def attr_of(item, registered=None):
    k, a = item[5], item[6]
    if k == "umark":
        return a[0] if registered is None or a[0] in registered else "tracing_mark_write"
    return a[0] if k == "user" else KINDS[k].attr


def event_of(item):
    k, a = item[5], item[6]
    return a[0] if k == "user" else "print" if k == "umark" else KINDS[k].event


def stamp_text(fmt, t_ns):
    if fmt in ("us", "sys"):
        us = t_ns // 1000
        return "%d.%06d" % (us // 10**6, us % 10**6)
    if fmt == "t9":
        return "%d.%09d" % (t_ns // 10**9, t_ns % 10**9)
    return "%d" % t_ns


def stamp_value(fmt, t_ns):
    s = stamp_text(fmt, t_ns)
    return float(s) / 1e9 if "." not in s else float(s)


def line_of(fmt, item, data=None):
    if item[0] == "j":
        if item[1].startswith("#pad "):
            return "\n".join(["# " + "x" * 998] * (int(item[1][5:]) // 1000))
        return item[1]
    _, t, cpu, comm, pid, k, args = item
    kind = KINDS[k]
    if k == "user":
        prefix = args[0] + ":"
    elif k == "umark":
        prefix = ("" if fmt == "sys" else "print: ") + "tracing_mark_write: " + args[0] + ":"
    else:
        prefix = kind.prefix
        if k == "mark" and fmt == "sys":
            prefix = "tracing_mark_write:"
    if data is None:
        data = kind.text(args)
    ts = stamp_text(fmt, t)
    if fmt == "sys":
        tg = "(-----)" if pid % 3 == 0 else "(%5d)" % pid
        return "%16s-%-5d %s [%03d] d..%d %s: %s %s" % (comm, pid, tg, cpu, pid % 5, ts, prefix, data)
    return "%16s-%-5d [%03d] %s: %-20s %s" % (comm, pid, cpu, ts, prefix, data)


def line_at(world, n):
    """The line of the n-th item; of some, trace-cmd says that it could not make sense of them."""
    it = world["items"][n]
    if it[0] == "e" and n in world.get("failed", ()) and (it[5] == "user" or KINDS[it[5]].plain):
        return line_of(world["fmt"], it, "[FAILED TO PARSE] " + KINDS[it[5]].text(it[6]))
    return line_of(world["fmt"], it)


SYS_HEAD = """<!DOCTYPE html>
<html>
<head i18n-values="dir:textdirection;">
<script>
  var x = "        foo-1     (    1) [000] d..3     1.000001: sched_wakeup: comm=fake pid=1 prio=1";
</script>
<!-- BEGIN TRACE -->
  <script class="trace-data" type="application/text">
# tracer: nop
#
#           TASK-PID    TGID   CPU#  ||||    TIMESTAMP  FUNCTION
#              | |        |      |   ||||       |         |
"""
SYS_TAIL = """  </script>
<!-- END TRACE -->
  <script class="trace-data" type="application/text">
        late-77    (   77) [001] d..3 999999.000001: sched_wakeup: comm=late pid=77 prio=1 success=1 target_cpu=001
  </script>
</body>
</html>
"""


def render(world, upto=None):
    """The bytes of the trace file."""
    fmt = world["fmt"]
    lines = [line_at(world, n) for n in range(len(world["items"][:upto]))]
    if fmt == "sys":
        text = SYS_HEAD + "".join(l + "\n" for l in lines) + SYS_TAIL
    else:
        text = "".join(l + "\n" for l in world["head"] + lines)
        if not world.get("nl", True) and text.endswith("\n") and lines:
            text = text[:-1]
    return text.encode("utf-8")


def path_name(world):
    return "trace.html" if world["fmt"] == "sys" else "trace.txt"


# --------------------------------------------------------------- ground truth
def events(world):
    return [it for it in world["items"] if it[0] == "e"]


def truth(world, wanted=None, registered=None):
    """attr -> list of rows (file order): dict(time, comm, pid, cpu, fields, seq)."""
    out = {}
    for seq, it in enumerate(events(world)):
        _, t, cpu, comm, pid, k, args = it
        attr = attr_of(it, registered)
        if wanted is not None and attr not in wanted:
            continue
        out.setdefault(attr, []).append({
            "seq": seq, "t": stamp_value(world["fmt"], t), "comm": comm.strip(), "pid": pid,
            "cpu": cpu, "f": KINDS[k].exp(args) if attr != "tracing_mark_write" or k != "umark"
            else {"string": KINDS[k].text(args)}})
    # arrays are padded with zeros to the longest one of the table
    for attr, rows in out.items():
        longest = max([r["f"].get("\0arr", [0])[0] for r in rows])
        for r in rows:
            if "\0arr" in r["f"]:
                n = r["f"].pop("\0arr")[0]
                if n:
                    for i in range(n, longest):
                        r["f"]["load%d" % i] = 0
    return out


def span_ns(world):
    ts = [it[1] for it in events(world)]
    return max(ts) - min(ts) if ts else 0


def same_value(got, exp, has_missing):
    """A cell against its expected value. has_missing: column has absent cells."""
    import numpy as np
    if exp is None:
        return got is None or (isinstance(got, float) and math.isnan(got))
    if isinstance(exp, str):
        return isinstance(got, str) and got == exp
    if isinstance(got, str) or got is None:
        return False
    if isinstance(got, (float, np.floating)):
        if math.isnan(got):
            return False
        return has_missing and got == float(exp)
    try:
        return int(got) == exp and not isinstance(got, bool)
    except (TypeError, ValueError):
        return False

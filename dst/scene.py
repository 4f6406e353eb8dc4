"""A simulated phone under thermal pressure: the events the analyses work on."""
from dst import world as W

MAP_LABEL = {"0000000f": "A7", "000000f0": "A15"}
TASKS = [["bash", 11], ["sshd", 12], ["kworker/0:1", 13], ["my task", 14], ["adbd", 15],
         ["migration/1", 16], ["surfaceflinger", 17]]


def ev(rng, kind, st):
    r = rng.randrange
    cpus = rng.choice(sorted(MAP_LABEL))
    if kind == "thermal":
        return ["thermal_temperature", [["thermal_zone", "soc"], ["id", str(r(2))],
                                        ["temp_prev", str(r(40000, 80000))],
                                        ["temp", str(r(40000, 80000))]]]
    if kind == "thermal_governor":
        return ["thermal_power_allocator",
                [["thermal_zone_id", str(r(2))],
                 ["req_power", "{%d %d %d}" % (r(900), r(900), r(900))],
                 ["total_req_power", str(r(3000))],
                 ["granted_power", "{%d %d %d}" % (r(900), r(900), r(900))],
                 ["total_granted_power", str(r(3000))], ["power_range", "3000"],
                 ["max_allocatable_power", str(r(3000))],
                 ["current_temperature", str(r(40000, 80000))],
                 ["delta_temperature", str(r(-3000, 3000))]]]
    if kind == "pid_controller":
        return ["thermal_power_allocator_pid",
                [["thermal_zone_id", "0"]] + [[k, str(r(-900, 900))] for k in
                                              ("err", "err_integral", "p", "i", "d", "output")]]
    if kind == "cpu_in_power":
        return ["thermal_power_cpu_get_power",
                [["cpus", cpus], ["freq", str(r(2, 20) * 100000)],
                 ["load", "{%d %d %d %d}" % (r(100), r(100), r(100), r(100))],
                 ["power", str(r(900))]]]
    if kind == "cpu_out_power":
        return ["thermal_power_cpu_limit", [["cpus", cpus], ["freq", str(r(2, 20) * 100000)],
                                            ["cdev_state", str(r(5))], ["power", str(r(900))]]]
    if kind == "devfreq_in_power":
        return ["thermal_power_devfreq_get_power",
                [["type", "gpu"], ["freq", str(r(2, 8) * 100000000)], ["load", str(r(100))],
                 ["power", str(r(900))]]]
    if kind == "devfreq_out_power":
        return ["thermal_power_devfreq_limit",
                [["type", "gpu"], ["freq", str(r(2, 8) * 100000000)], ["cdev_state", str(r(5))],
                 ["power", str(r(900))]]]
    if kind == "cpu_frequency":
        return ["cpu_frequency", [["state", str(r(2, 20) * 100000)], ["cpu_id", str(r(st["ncpu"]))]]]
    if kind == "cpu_idle":
        return ["cpu_idle", [["state", rng.choice(["0", "1", "4294967295"])],
                             ["cpu_id", str(r(st["ncpu"]))]]]
    if kind == "sched_wakeup":
        t = rng.choice(TASKS)
        return ["sched_wakeup", [["comm", t[0]], ["pid", str(t[1])], ["prio", "120"],
                                 ["success", "1"], ["target_cpu", "%03d" % r(st["ncpu"])]]]
    if kind == "evt_alpha":
        return ["evt_alpha", [["cpu", str(r(3))], ["load", str(r(1000))], ["name", rng.choice(["x", "y", "007"])],
                              ["util", str(r(0, 100))]]]
    raise KeyError(kind)


KINDS = ["thermal", "thermal_governor", "pid_controller", "cpu_in_power", "cpu_out_power",
         "devfreq_in_power", "devfreq_out_power", "cpu_frequency", "cpu_idle", "sched_wakeup",
         "evt_alpha", "sched_switch"]


def gen_scene(rng, n=None, kinds=None, ties=.15):
    """A world whose tables the thermal and scheduler analyses understand."""
    ncpu = rng.choice([2, 4, 8])
    st = {"ncpu": ncpu}
    if kinds is None:
        kinds = sorted(rng.sample(KINDS, rng.randrange(3, len(KINDS) + 1)), key=KINDS.index)
        if rng.random() < .5:
            for k in ("cpu_in_power", "cpu_out_power"):
                if k not in kinds:
                    kinds.append(k)
    n = n or rng.choice([12, 25, 40, 70])
    t = rng.randrange(10**9, 10**12) // 1000 * 1000
    running = {}
    items = []
    for i in range(n):
        t += 0 if rng.random() < ties else rng.choice([1000, 5000, 10**6, 10**8, rng.randrange(10**7)])
        k = rng.choice(kinds) if i >= len(kinds) else kinds[i]
        cpu = rng.randrange(ncpu)
        comm, pid = rng.choice(TASKS)
        if k == "sched_switch":
            prev = running.get(cpu, ["swapper", 0])
            free = [x for x in TASKS + [["swapper", 0]] if x == ["swapper", 0] or x not in running.values()]
            nxt = rng.choice([x for x in free if x != prev] or free)
            running[cpu] = nxt
            a = [prev[0], str(prev[1]), "120", "S", nxt[0], str(nxt[1]), "120", 1]
            items.append(["e", t, cpu, prev[0], prev[1], "sched_switch", a])
        else:
            items.append(["e", t, cpu, comm, pid, "user", ev(rng, k, st)])
    return {"fmt": "us", "ncpu": ncpu, "items": items, "kinds": kinds,
            "head": ["version = 6", "cpus=%d" % ncpu], "users": [], "nl": True}

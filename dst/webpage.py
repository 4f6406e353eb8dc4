"""Runs a session of a simulated browser (dst/browser/session.js under node)."""
import json
import os
import shutil

from dst import core, seams

HERE = os.path.dirname(os.path.abspath(__file__))
NODE = shutil.which("node") or "/usr/bin/node"
TIMEOUT = shutil.which("timeout") or "/usr/bin/timeout"
_spawn, _wait = os.posix_spawn, os.waitpid


def files():
    """What the web server serves, as IPythonConf installs it."""
    from trappy.plotter import IPythonConf
    out = {}
    for module, resources in IPythonConf.IPLOT_RESOURCES.items():
        for r in resources:
            b = os.path.basename(r)
            if r.startswith("http"):
                lib = [l for l in ("tip", "d3", "synchronizer", "dygraph", "underscore") if l in b][:1]
                out["%s/%s" % (module, b)] = {"lib": {"synchronizer": "sync"}.get(lib[0], lib[0]) if lib else "underscore"}
            elif b.endswith(".js"):
                with seams._real_io_open(core.REPO + "/trappy/plotter/" + r, encoding="utf-8") as f:
                    out["%s/%s" % (module, b)] = {"text": f.read()}
            else:
                out["%s/%s" % (module, b)] = {"text": ""}
    return out


NUMBERS = {"NaN": float("nan"), "Infinity": float("inf"), "-Infinity": float("-inf")}


def numbers(v):
    """Numbers JSON cannot hold were written as strings."""
    if isinstance(v, dict):
        return dict((k, numbers(x)) for k, x in v.items())
    if isinstance(v, list):
        return [numbers(x) for x in v]
    return NUMBERS.get(v, v) if isinstance(v, str) else v


def run(directory, session):
    src, dst = os.path.join(directory, "session.json"), os.path.join(directory, "seen.json")
    guard, seams._guard["on"] = seams._guard["on"], False
    try:
        with seams._real_io_open(src, "w", encoding="utf-8") as f:
            json.dump(session, f)
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "TZ": "UTC", "HOME": directory}
        pid = _spawn(TIMEOUT, [TIMEOUT, "-s", "KILL", "60", NODE, "--max-old-space-size=1024",
                               HERE + "/browser/session.js"], env,
                     file_actions=[(os.POSIX_SPAWN_OPEN, 0, src, os.O_RDONLY, 0),
                                   (os.POSIX_SPAWN_OPEN, 1, dst, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)])
        _, status = _wait(pid, 0)
        if status != 0:
            raise RuntimeError("the simulated browser ended with status %s" % status)
        with seams._real_io_open(dst, encoding="utf-8") as f:
            seen = numbers(json.load(f))
        if seen and "unsupported" in seen[-1]:
            # judged neither way
            raise core.Skip("the simulated browser lacks %s" % seen[-1]["unsupported"][:3])
        return seen
    finally:
        seams._guard["on"] = guard

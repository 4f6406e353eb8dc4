"""Operations on the code under test and canonical views of what it returns."""
import hashlib
import math
import os

from dst import seams, world as W


def put(path, data):
    """Write a file without going through the simulated syscalls."""
    d = os.path.dirname(path)
    with seams._real_io_open(path, "wb") as f:
        f.write(data)
    if seams.FS is not None:
        seams.FS.tick()
        seams.FS.stamp(path)
    return d


def get(path):
    with seams._real_io_open(path, "rb") as f:
        return f.read()


def cell(v):
    import numpy as np
    if v is None:
        return ["none"]
    if isinstance(v, (bool, np.bool_)):
        return ["b", bool(v)]
    if isinstance(v, str):
        return ["s", v]
    if isinstance(v, (int, np.integer)):
        return ["i", int(v)]
    if isinstance(v, (float, np.floating)):
        return ["nan"] if math.isnan(v) else ["f", float(v).hex()]
    return [type(v).__name__, repr(v)]


def table(df):
    """A data frame as plain data: labels, dtypes, every cell with its type."""
    return {
        "cols": [str(c) for c in df.columns],
        "dtypes": [str(t) for t in df.dtypes],
        "iname": str(df.index.name),
        "idtype": str(df.index.dtype),
        "index": [cell(v) for v in df.index.tolist()],
        "rows": [[cell(v) for v in df[c].tolist()] for c in df.columns]
        if not df.columns.has_duplicates else repr(df),
    }


META = ("basetime", "endtime", "normalized_time", "_cpus", "_version", "name")


def canon(trace, attrs=None, meta=True):
    out = {"tables": {}}
    names = sorted(trace.class_definitions) if attrs is None else attrs
    for n in names:
        out["tables"][n] = table(getattr(trace, n).data_frame)
    if meta:
        m = {}
        for k in META:
            v = trace.__dict__.get(k, "<absent>")
            m[k] = [cell(x) for x in v] if isinstance(v, (list, tuple)) else cell(v)
        try:
            m["duration"] = cell(trace.get_duration())
        except Exception as e:
            m["duration"] = ["exc", type(e).__name__]
        md = trace.__dict__.get("metadata")
        m["metadata"] = sorted(md.items()) if isinstance(md, dict) else str(md)
        m["filters"] = sorted(trace.get_filters())
        out["meta"] = m
    return out


def digest(c):
    return hashlib.md5(repr(c).encode("utf-8", "backslashreplace")).hexdigest()


def diff(a, b, path=""):
    """First difference between two canonical values, as text ('' if equal)."""
    if type(a) is not type(b):
        return "%s: %r != %r" % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return "%s/%s: only in the second (%r)" % (path, k, _short(b[k]))
            if k not in b:
                return "%s/%s: only in the first (%r)" % (path, k, _short(a[k]))
            d = diff(a[k], b[k], path + "/" + str(k))
            if d:
                return d
        return ""
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d != %d: %r vs %r" % (path, len(a), len(b), _short(a), _short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return ""
    return "" if a == b else "%s: %r != %r" % (path, a, b)


def _short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


# ----------------------------------------------------------------- loading
def tracer(kind):
    import trappy
    return {"FTrace": trappy.FTrace, "SysTrace": trappy.SysTrace}[kind]


def load(spec, path):
    """spec: the arguments of a load as JSON."""
    kw = {}
    for k in ("scope", "normalize_time", "name"):
        if k in spec:
            kw[k] = spec[k]
    if "events" in spec:
        kw["events"] = list(spec["events"])
    for k in ("window", "abs_window"):
        if k in spec:
            kw[k] = tuple(spec[k])
    return tracer(spec.get("tracer", "FTrace"))(path, **kw)


def scopes():
    """What each scope parses right now: {scope: {table: unique word}}."""
    import trappy
    d = os.path.join(seams.FS.root, "scopes")
    seams._real["mkdir"](d)
    p = d + "/trace.txt"
    put(p, b"            probe-1     [000] 1.000001: no_such_event: a=1\n")
    fs = seams.FS
    saved, fs.chunks = fs.chunks, None
    old = trappy.FTrace.__dict__.get("disable_cache")
    trappy.FTrace.disable_cache = True
    try:
        out = {}
        for s in ("all", "sched", "thermal"):
            t = trappy.FTrace(p, scope=s)
            out[s] = dict((n, getattr(t, n).unique_word) for n in t.get_filters())
        return out
    finally:
        fs.chunks = saved
        if old is None:
            del trappy.FTrace.disable_cache
        else:
            trappy.FTrace.disable_cache = old


def file_order(trace, attrs):
    """Rows of several tables merged in the order of the trace file."""
    rows = []
    for attr in attrs:
        df = getattr(trace, attr).data_frame
        if df.empty:
            continue
        cols = list(df.columns)
        idx = df.index.tolist()
        vals = [df[c].tolist() for c in cols]
        for i in range(len(idx)):
            r = dict(zip(cols, (v[i] for v in vals)))
            rows.append((r.get("__line"), attr, idx[i], r))
    rows.sort(key=lambda x: (x[0], x[1]))
    return rows


def compare_truth(ctx, trace, truth, attrs, base=0.0, partial=False, times=None):
    """Every table against the ground truth; raises Violation on the first gap.

    partial: the last line of the file was cut; one extra row, of any value,
    after all the others is tolerated."""
    extra_left = 1 if partial else 0
    for attr in attrs:
        exp = truth.get(attr, [])
        df = getattr(trace, attr).data_frame
        n = len(df)
        extra = n - len(exp)
        ctx.check(0 <= extra <= extra_left, "event-count",
                  lambda: "%s has %d rows, the trace has %d such events" % (attr, n, len(exp)))
        extra_left -= extra
        if not n:
            continue
        known = set(["__comm", "__pid", "__cpu", "__line"])
        for r in exp:
            known.update(r["f"])
        cols = list(df.columns)
        if not extra:
            ctx.check(set(cols) == known, "columns",
                      lambda: "%s has columns %s, expected %s" % (attr, sorted(cols), sorted(known)))
        else:
            ctx.check(set(cols) >= (known if exp else set()), "columns",
                      lambda: "%s misses columns %s" % (attr, sorted(known - set(cols))))
        vals = dict((c, df[c].tolist()) for c in cols)
        miss = {}
        for c in cols:
            miss[c] = bool(extra) or any(c not in r["f"] for r in exp) \
                if c not in ("__comm", "__pid", "__cpu", "__line") else False
            if any(c in r["f"] and r["f"][c] is None for r in exp):
                miss[c] = True
        last_line = None
        for i, r in enumerate(exp):
            ctx.check(vals["__comm"][i] == r["comm"], "comm", lambda: "%s row %d: task %r, traced %r"
                      % (attr, i, vals["__comm"][i], r["comm"]))
            ctx.check(W.same_value(vals["__pid"][i], r["pid"], False), "pid",
                      lambda: "%s row %d: pid %r, traced %r" % (attr, i, vals["__pid"][i], r["pid"]))
            ctx.check(W.same_value(vals["__cpu"][i], r["cpu"], False), "cpu",
                      lambda: "%s row %d: cpu %r, traced %r" % (attr, i, vals["__cpu"][i], r["cpu"]))
            line = vals["__line"][i]
            ctx.check(last_line is None or line > last_line, "order",
                      lambda: "%s row %d: rows are not in file order" % (attr, i))
            last_line = line
            for c in cols:
                if c.startswith("__"):
                    continue
                v = vals[c][i]
                if c in r["f"]:
                    ctx.check(W.same_value(v, r["f"][c], miss[c]), "value",
                              lambda: "%s row %d field %s: %r, traced %r" % (attr, i, c, v, r["f"][c]))
                else:
                    ctx.check(v is None or (isinstance(v, float) and v != v), "value",
                              lambda: "%s row %d field %s: %r, but the event has no such field"
                              % (attr, i, c, v))
    return True


def errors():
    """What an explicit load error may be."""
    return (Exception,)


def tree(root):
    """Everything below root: {relative path: (kind, content or target)}."""
    out = {}

    def walk(d, rel):
        for e in sorted(seams._real["scandir"](d), key=lambda e: e.name):
            r = rel + "/" + e.name if rel else e.name
            if e.is_symlink():
                out[r] = ("link", seams._real["readlink"](e.path))
            elif e.is_dir(follow_symlinks=False):
                out[r] = ("dir", None)
                walk(e.path, r)
            else:
                out[r] = ("file", get(e.path))
    walk(root, "")
    return out

"""C21: an expression over a trace means what its operators mean on what was traced."""
import math

import numpy as np

from dst import analyses as A, core, hist, ops, scene, sched, world as W

ID = "C21"
LEVEL = "exploration"
QUICK, THOROUGH = 2500, 40000
SHRINK = ("items", "parsers", "asked")
SIMPLIFY = {"line": [0], "norm": [False], "filters": [{}], "window": [None], "tight": [False]}
RULE = ("A case is the recording of a simulated phone (per-CPU buffers, events and kinds lost, tied stamps) and 1-2 "
        "expression parsers with windows, filters, constants, functions and aliases, each asked 1-5 expressions built from "
        "the operator table with the fewest parentheses it allows, some preceded by a broken one, some interrupted and asked again. "
        "Every answer is compared with an evaluator of its own that holds each signal's last traced value at "
        "every stamp; masks given to ref() and inspect() likewise. "
        "Non-trivial: an answer that depends on a signal was compared.")
MEASURE = "(operators, kinds of operands, window, filters, expressions before) combinations"
REAL = ["trappy.stats.grammar", "pandas, numpy, pyparsing"]
STUB = ["the traced machine", "the user"]
ASSUME = ["the default fill and method; operands whose products exceed 1e15, where integers may wrap, are not judged",
          "operands of a comparison or a logical operator have the same pivots"]

ALIASES = {"cpu_in_power": "trappy.cpu_power.CpuInPower", "cpu_out_power": "trappy.cpu_power.CpuOutPower",
           "thermal": "trappy.thermal.Thermal", "thermal_governor": "trappy.thermal.ThermalGovernor",
           "cpu_frequency": "trappy.sched.SchedCpuFrequency" , "pid_controller": "trappy.pid_controller.PIDController",
           "sched_wakeup": "trappy.sched.SchedWakeup", "sched_switch": "trappy.sched.SchedSwitch",
           "devfreq_in_power": "trappy.devfreq_power.DevfreqInPower"}
CONSTS = ["2", "3", "0.5", "10", "1000", "1.5e3", "0", "7."]
PV = {"LIMIT": 7, "_half": .5}
FUNCS = {"double": 1, "add": 2, "total": 1, "numpy.abs": 1, "numpy.mean": 1, "numpy.max": 1, "numpy.min": 1, "zero": 0,
         "root": 1, "where": 3}
PREC = {"**": 5, "*": 3, "/": 3, "//": 3, "%": 3, "+": 2, "-": 2, ">": 1, "<": 1, ">=": 1, "<=": 1, "==": 1, "!=": 1,
        "&": 0, "|": 0, "&&": 0, "||": 0}


class Undefined(Exception):
    """The operators' meaning is not settled for these operands."""


class Refuse(Exception):
    """There is nothing to answer with."""


def setup():
    A.warm()


# ------------------------------------------------------------------ generation
def g_num(rng, sigs, d):
    r = rng.random()
    if d <= 0 or r < .3:
        return ["s", rng.choice(sigs)] if rng.random() < .75 else \
            ["c", rng.choice(CONSTS)] if rng.random() < .7 else ["v", rng.choice(sorted(PV))]
    if r < .4:
        return ["u", rng.choice("--+"), g_num(rng, sigs, d - 1)]
    if r < .5:
        return ["b", "**", g_num(rng, sigs, d - 1), ["c", rng.choice(["2", "0.5", "3", "1"])]]
    if r < .82:
        return ["b", rng.choice(["+", "-", "*", "/", "//", "%", "-", "+"]), g_num(rng, sigs, d - 1), g_num(rng, sigs, d - 1)]
    f = rng.choice(["double", "add", "numpy.abs", "numpy.mean", "numpy.max", "numpy.min", "root", "total", "zero"])
    return ["f", f, [g_num(rng, sigs, d - 1) for _ in range(FUNCS[f])]]


def g_scalar(rng, sigs, d):
    r = rng.random()
    if d <= 0 or r < .4:
        return ["f", "total", [g_num(rng, sigs, 1)]] if r < .3 else ["c", rng.choice(CONSTS)] if r < .35 else ["v", "LIMIT"]
    return ["b", rng.choice(["+", "-", "*"]), g_scalar(rng, sigs, d - 1), g_scalar(rng, sigs, d - 1)]


REL = [">", "<", ">=", "<=", "==", "!="]


def g_bool(rng, sigs, d):
    if d <= 0 or rng.random() < .5:
        return ["b", rng.choice(REL), g_num(rng, sigs, max(d, 1) - 1), g_num(rng, sigs, max(d, 1) - 1)]
    return ["b", rng.choice("&|"), g_bool(rng, sigs, d - 1), g_bool(rng, sigs, d - 1)]


def g_sbool(rng, sigs, d):
    if d <= 0 or rng.random() < .5:
        return ["b", rng.choice(REL), g_scalar(rng, sigs, 0), g_scalar(rng, sigs, 0)]
    return ["b", rng.choice(["&&", "||"]), g_sbool(rng, sigs, d - 1), g_sbool(rng, sigs, d - 1)]


BREAKS = [" +", " 3", " ^ 2", " ** -{s}", ")", " >> 2", " {s}", " = 1", " ! {s}", " * * 2", ",", " e5", "&&", " {s}("]


def g_expr(rng, sigs):
    pool = sigs if rng.random() < .5 else [rng.choice(sigs)]
    r = rng.random()
    e = {"ast": ["s", rng.choice(pool)] if r < .08 else g_num(rng, pool, rng.choice([1, 2, 2, 3])) if r < .5
         else g_bool(rng, pool, rng.choice([0, 1, 2])) if r < .85 else g_sbool(rng, pool, rng.choice([1, 2])),
         "tight": rng.random() < .4, "break": rng.choice(BREAKS) if rng.random() < .12 else "",
         "line": int(2 ** rng.uniform(0, 9)) if rng.random() < .12 else 0, "ref": rng.random() < .4,
         "style": rng.choice(["name", "name", "alias", "path"])}
    return e


def gen(rng, i, tier):
    w = scene.gen_scene(rng)
    kinds = [k for k in w["kinds"] if k in A.COLS]
    ps = []
    for _ in range(rng.choice([1, 1, 2])):
        sigs = A._signals(rng, kinds, rng.choice([1, 2, 3]))
        if rng.random() < .4:
            # several columns of one event, and one column of several
            k = rng.choice(kinds)
            sigs = ["%s:%s" % (k, c) for c in A.COLS[k]]
        ps.append({"window": A._window(rng), "filters": A.g_filters(rng),
                   "asked": [g_expr(rng, sigs) for _ in range(rng.choice([1, 2, 3, 5]))]})
    # what the buffers lost
    if rng.random() < .3:
        a, b = sorted((rng.randrange(len(w["items"]) + 1), rng.randrange(len(w["items"]) + 1)))
        if b - a < len(w["items"]) - 3:
            w["items"][a:b] = [["j", "CPU:%d [LOST EVENTS]" % rng.randrange(w["ncpu"])]] if rng.random() < .5 else []
    return {"world": w, "spec": {"tracer": "FTrace", "scope": "custom", "normalize_time": rng.random() < .6,
                                 "events": sorted(set(kinds))}, "parsers": ps}


# ------------------------------------------------------------------ text of an expression
def text(ast, style, tight):
    """-> (text, precedence of its top operator)"""
    sp = "" if tight else " "

    def par(x, need):
        t, p = text(x, style, tight)
        return t if p >= need else "(%s)" % t
    k = ast[0]
    if k == "s":
        ev, col = ast[1].split(":")
        if style == "alias":
            ev = "E_" + ev
        elif style == "path" and ev in ALIASES:
            ev = ALIASES[ev]
        return "%s:%s" % (ev, col), 9
    if k in ("c", "v"):
        return ast[1], 9
    if k == "u":
        return ast[1] + par(ast[2], 4), 4
    if k == "f":
        return "%s(%s)" % (ast[1], ("," + sp).join(text(x, style, tight)[0] for x in ast[2])), 9
    p = PREC[ast[1]]
    # the text after an operator must not begin with another sign
    left, right = par(ast[2], p), par(ast[3], p + 1)
    if p == 5 and ast[2][0] != "b" and text(ast[2], style, tight)[1] < 9:
        left = "(%s)" % text(ast[2], style, tight)[0]
    if right[:1] in "+-":
        right = "(%s)" % right
    return left + sp + ast[1] + sp + right, p


def depth(t):
    d = m = 0
    for c in t:
        d += (c == "(") - (c == ")")
        m = max(m, d)
    return m


def signals(ast):
    if ast[0] == "s":
        return [ast[1]]
    if ast[0] in ("c", "v"):
        return []
    out = []
    for x in ast[2:] if ast[0] != "f" else ast[2]:
        out += [s for s in signals(x) if s not in out]
    return out


# ------------------------------------------------------------------ the evaluator
# a value is a float/bool, ("ser", {column: v}) or ("vec", {column: [v...]})
NAN = float("nan")


def big(x):
    if isinstance(x, float) and abs(x) > 1e15 and not math.isinf(x):
        raise Undefined("magnitude")
    return x


def arith(op, a, b):
    with np.errstate(all="ignore"):
        x, y = np.float64(a), np.float64(b)
        r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "//": lambda: x // y,
             "%": lambda: x % y, "**": lambda: x ** y}[op]()
    return big(float(r))


def close(a, b):
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-3)


def rel(op, a, b, fuzzy):
    """True, False or None: too close to tell"""
    if not (math.isnan(a) or math.isnan(b)) and (a != b or fuzzy) and close(a, b):
        return None
    return {">": a > b, "<": a < b, ">=": a >= b, "<=": a <= b, "==": a == b, "!=": a != b}[op]


def logic(op, a, b):
    if op in ("&", "&&"):
        return False if a is False or b is False else None if a is None or b is None else True
    return True if a is True or b is True else None if a is None or b is None else False


def isb(v):
    return v is None or isinstance(v, bool)


def is_bool(v):
    if isinstance(v, tuple):
        return any(isb(x) for c in v[1].values() for x in (c if v[0] == "vec" else [c]))
    return isb(v)


def cancelled(op, a, b, r):
    return op in "+-" and (a or b) and math.isfinite(a) and math.isfinite(b) and abs(r) <= 1e-9 * max(abs(a), abs(b))


def fuzzy(ast):
    """Is the last bit of its value left open by the order of a sum or the implementation of a function?"""
    return any(o in ("total", "numpy.mean", "b**", "root") for o in op_names(ast))


def binary(op, a, b, n, fuzz=False):
    num = op in ("+", "-", "*", "/", "//", "%", "**")
    if op in ("&&", "||"):
        if isinstance(a, tuple) or isinstance(b, tuple) or not (isb(a) and isb(b)):
            raise Undefined("logic of vectors")
        return logic(op, a, b)
    if op in ("&", "|"):
        if not is_bool(a) or not is_bool(b):
            raise Undefined("bits of numbers")
    elif is_bool(a) or is_bool(b):
        raise Undefined("arithmetic on truth")
    if fuzz and op in ("//", "%"):
        raise Undefined("rounding")

    def number(x, y):
        r = arith(op, x, y)
        if fuzz and cancelled(op, x, y, r):
            raise Undefined("rounding")
        return r
    f = number if num else (lambda x, y: rel(op, x, y, fuzz)) if op in REL else (lambda x, y: logic(op, x, y))
    if not isinstance(a, tuple) and not isinstance(b, tuple):
        if num and op in ("/", "//", "%") and b == 0:
            raise Refuse("division by zero")
        if op == "**" and a < 0:
            raise Undefined("complex")
        return f(a, b)
    cols = None
    for v in (a, b):
        if isinstance(v, tuple):
            if cols is None:
                cols = set(v[1])
            elif cols != set(v[1]):
                if not num:
                    raise Undefined("labels")
                cols |= set(v[1])
    ka, kb = [v[0] if isinstance(v, tuple) else "" for v in (a, b)]
    if not num and {ka, kb} == {"vec", "ser"}:
        raise Undefined("labels")
    kind = "vec" if "vec" in (ka, kb) else "ser"

    def at(v, k, c):
        if not isinstance(v, tuple):
            return [v] * n
        if c not in v[1]:
            return [NAN] * n
        return v[1][c] if k == "vec" else [v[1][c]] * n
    out = {}
    for c in cols:
        r = [f(x, y) for x, y in zip(at(a, ka, c), at(b, kb, c))]
        out[c] = r if kind == "vec" else r[0] if r else NAN
    return (kind, out)


def each(f, v):
    if not isinstance(v, tuple):
        return f(v)
    return (v[0], dict((c, [f(y) for y in x] if v[0] == "vec" else f(x)) for c, x in v[1].items()))


def flat(v):
    if not isinstance(v, tuple):
        return [v]
    return [y for c in v[1] for y in (v[1][c] if v[0] == "vec" else [v[1][c]])]


def call(f, args, n):
    if any(is_bool(a) for a in args):
        raise Undefined("functions of truth")
    if f == "double":
        return each(lambda x: x * 2, args[0])
    if f == "add":
        return binary("+", args[0], args[1], n, True)
    if f == "zero":
        return 0.0
    if f == "total":
        xs = [x for x in flat(args[0]) if not math.isnan(x)]
        if any(x != int(x) for x in xs if math.isfinite(x)) and abs(sum(xs)) <= 1e-6 * sum(map(abs, xs)):
            raise Undefined("rounding")
        return big(float(sum(xs)))
    if f == "numpy.abs":
        return each(abs, args[0])
    if f == "root":
        return each(lambda x: math.sqrt(x) if x >= 0 else NAN, args[0])
    a = args[0]
    g = {"numpy.mean": lambda xs: sum(xs) / len(xs), "numpy.max": max, "numpy.min": min}[f]

    def over(xs):
        xs = [x for x in xs if not math.isnan(x)]
        if any(math.isinf(x) for x in xs):
            raise Undefined("infinite")
        if f == "numpy.mean" and any(x != int(x) for x in xs) and abs(sum(xs)) <= 1e-6 * sum(map(abs, xs)):
            raise Undefined("rounding")
        return float(g(xs)) if xs else NAN
    if not isinstance(a, tuple):
        return a
    if a[0] == "ser":
        return over(list(a[1].values()))
    return ("ser", dict((c, over(x)) for c, x in a[1].items()))


def evaluate(ast, sig, n):
    k = ast[0]
    if k == "s":
        return ("vec", sig[ast[1]])
    if k == "c":
        return float(ast[1])
    if k == "v":
        return PV[ast[1]]
    if k == "u":
        v = evaluate(ast[2], sig, n)
        if is_bool(v):
            raise Undefined("sign of truth")
        return each(lambda x: -x if ast[1] == "-" else x, v)
    if k == "f":
        return call(ast[1], [evaluate(x, sig, n) for x in ast[2]], n)
    return binary(ast[1], evaluate(ast[2], sig, n), evaluate(ast[3], sig, n), n, fuzzy(ast[2]) or fuzzy(ast[3]))


# ------------------------------------------------------------------ what was traced
class Model(object):
    """What a parser was asked, and what was traced of it."""

    def __init__(self, trace, p):
        self.trace, self.p = trace, p
        self.asked = []
        self.rows = {}

    def table(self, ev):
        """[(stamp, record)] in the window and past the filters"""
        if ev not in self.rows:
            df = getattr(self.trace, self.trace.class_definitions[ev].name).data_frame
            lo, hi = self.p["window"] or [0, None]
            self.rows[ev] = [(t, r) for t, r in zip(df.index.tolist(), df.to_dict("records"))
                             if t >= lo and (hi is None or t <= hi) and
                             not any(k in r and r[k] not in (v if isinstance(v, list) else [v])
                                     for k, v in self.p["filters"].items())]
        return self.rows[ev]

    def ask(self, sigs):
        for s in sigs:
            if s not in self.asked:
                ev, col = s.split(":")
                if ev not in self.trace.class_definitions or not self.table(ev) or col not in self.table(ev)[0][1]:
                    raise Refuse(s)
                self.asked.append(s)

    def stamps(self):
        return sorted(set(t for s in self.asked for t, _ in self.table(s.split(":")[0])))

    def pivot(self, ev):
        return getattr(self.trace.class_definitions[ev], "pivot", None)

    def value(self, s, stamps):
        ev, col = s.split(":")
        pv = self.pivot(ev)
        by = {}
        for t, r in self.table(ev):
            v = r[col]
            if isinstance(v, str):
                raise Undefined("text")
            d = by.setdefault(r[pv] if pv else "NO_PIVOT", {})
            if not (isinstance(v, float) and math.isnan(v)):
                d[t] = float(v)
        out = {}
        for c, d in by.items():
            last, col = NAN, []
            for t in stamps:
                last = d.get(t, last)
                col.append(last)
            out[c] = col
        return out


def compare(ctx, what, got, exp, stamps):
    import pandas as pd
    bad = lambda why: ctx.check(False, "value", lambda: "%s: %s" % (what, why))
    if not isinstance(exp, tuple):
        if hasattr(got, "columns") or hasattr(got, "index"):
            return bad("%s instead of %r" % (type(got).__name__, exp))
        return same(bad, "", got, exp)
    if exp[0] == "ser":
        if not isinstance(got, pd.Series):
            return bad("%s instead of a value per pivot" % type(got).__name__)
        have = dict(zip(got.index.tolist(), got.tolist()))
        if set(have) != set(exp[1]):
            return bad("pivots %s instead of %s" % (sorted(map(str, have)), sorted(map(str, exp[1]))))
        for c in have:
            same(bad, c, have[c], exp[1][c])
        return
    if not isinstance(got, pd.DataFrame):
        return bad("%s instead of a value per pivot and stamp" % type(got).__name__)
    if got.index.tolist() != stamps:
        return bad("stamps %s instead of %s" % (got.index.tolist()[:8], stamps[:8]))
    cols = got.columns.tolist()
    if len(cols) != len(set(cols)) or set(cols) != set(exp[1]):
        return bad("pivots %s instead of %s" % (cols, sorted(map(str, exp[1]))))
    for j, c in enumerate(cols):
        for t, v, e in zip(stamps, got.iloc[:, j].tolist(), exp[1][c]):
            same(bad, "%s at %r" % (c, t), v, e)


def same(bad, where, v, e):
    if e is None:
        return
    if isb(e):
        if not isinstance(v, (bool, np.bool_)) or bool(v) != e:
            bad("%s is %r, not %r" % (where, v, e))
    elif isinstance(v, (bool, np.bool_)) or not close(float(v), float(e)):
        bad("%s is %r, not %r" % (where, v, e))


# ------------------------------------------------------------------ the run
def run(case, ctx):
    import numpy
    from trappy.stats.grammar import Parser
    m = hist.Machine(ctx)
    path = m.put("trace", case["world"])
    for c in m.classes:
        c.disable_cache = True
    trace = ops.load(case["spec"], path)
    todo = []
    for pi, p in enumerate(case["parsers"]):
        pv = dict(PV, double=lambda s: s * 2, add=lambda a, b: a + b, zero=lambda: 0.0, root=numpy.sqrt,
                  total=lambda s: float(numpy.nansum(numpy.asarray(getattr(s, "values", s), dtype=float))))
        for ev, cls in trace.class_definitions.items():
            pv["E_" + ev] = cls
        kw = {}
        if p["window"] is not None:
            kw["window"] = tuple(p["window"])
        if p["filters"]:
            kw["filters"] = dict(p["filters"])
        todo.append((p, Parser(trace, pvars=pv, **kw), Model(trace, p)))
    for k in range(max(len(p["asked"]) for p in case["parsers"])):
        for p, parser, model in todo:
            if k < len(p["asked"]):
                one(case, ctx, p, parser, model, p["asked"][k], k)
    ctx.sim_ns = W.span_ns(case["world"])


def solve(parser, t, line):
    li = sched.LineInterrupt(core.REPO + "/trappy", line, KeyboardInterrupt) if line else None
    try:
        with np.errstate(all="ignore"):
            if li:
                with li:
                    return ("ok", parser.solve(t)), li.fired
            return ("ok", parser.solve(t)), False
    except (Exception, KeyboardInterrupt) as e:
        return ("exc", e), bool(li and li.fired)


def one(case, ctx, p, parser, model, q, k):
    ast = q["ast"]
    t, _ = text(ast, q["style"], q["tight"])
    sigs = signals(ast)
    if depth(t) > 4:
        ctx.stat("too deep")
        return
    what = "%r (window %s, filters %s, question %d)" % (t, p["window"], p["filters"], k + 1)
    if q["break"] and (sigs or "**" not in q["break"]):
        bt = t + q["break"].replace("{s}", text(["s", sigs[0]], q["style"], True)[0] if sigs else "2")
        got, _ = solve(parser, bt, 0)
        ctx.fault("malformed-expression")
        # Whether it raises or evaluates what it can read is not judged, only that it does no harm. It may have
        # learnt of the signals in it.
        ctx.stat("malformed: %s" % got[0])
        order = model_order(bt, model)
        try:
            model.ask(order)
        except Refuse:
            pass
    if q["line"]:
        got, fired = solve(parser, t, q["line"])
        if fired:
            ctx.fault("interrupt@line")
            ctx.check(got[0] == "ok" or isinstance(got[1], KeyboardInterrupt), "interrupt",
                      lambda: "%s raises %r instead of what interrupted it" % (what, got[1]))
            got, _ = solve(parser, t, 0)
    else:
        got, _ = solve(parser, t, 0)
    sigs = model_order(t, model)
    try:
        model.ask(sigs)
        stamps = model.stamps()
        vals = dict((s, model.value(s, stamps)) for s in sigs)
        exp = evaluate(ast, vals, len(stamps))
    except Undefined as e:
        ctx.stat("undefined: %s" % e)
        return
    except Refuse:
        ctx.check(got[0] == "exc", "no-data", lambda: "%s has nothing to answer with and gives %r" % (what, str(got[1])[:80]))
        ctx.stat("refused")
        return
    ctx.check(got[0] == "ok", "raises", lambda: "%s raises %s %s" % (what, type(got[1]).__name__, got[1]))
    v = got[1]
    ctx.log("solve", t, ops.digest(A.canon(v)))
    compare(ctx, what, v, exp, stamps)
    ctx.stat("compared")
    kinds = sorted(set(op_names(ast)))
    ctx.covered(kinds, exp[0] if isinstance(exp, tuple) else "scalar", bool(p["window"]), bool(p["filters"]), min(k, 2))
    if sigs:
        ctx.nontrivial = True
    if q["ref"] and isinstance(exp, tuple) and exp[0] == "vec" and is_bool(exp) and len(exp[1]) == 1:
        mask = v.iloc[:, 0]
        want = [s for s, b in zip(stamps, mask.tolist()) if b]
        df = parser.ref(mask)
        ctx.check(df.index.tolist() == want, "ref", lambda: "ref of %s has stamps %s, not %s" % (what, df.index.tolist()[:6], want[:6]))
        for s in sigs:
            names = [n for n in (s, s.split(":")[1]) if n in set(df.columns.get_level_values(0))]
            ok = False
            for n in names:
                sub = df[n]
                e = vals[s]
                ok = ok or (set(sub.columns.tolist()) == set(e) and all(
                    close(float(x), float(y)) for c in e
                    for x, y in zip(sub[c].tolist(), [z for z, b in zip(e[c], mask.tolist()) if b])))
            ctx.check(ok, "ref", lambda: "ref of %s has not the values of %s" % (what, s))
        ctx.stat("refs")
    if sigs and k % 2 == 0:
        s = sigs[0]
        ev, col = s.split(":")
        i = parser.inspect(text(["s", s], q["style"], True)[0])
        rows = model.table(ev)
        pv = model.pivot(ev)
        exp = {"length": len(rows), "column": col, "column_present": True, "pivot": pv,
               "pivot_values": sorted(set(r[pv] for _, r in rows)) if pv else None, "class": trace_class(model, ev)}
        ctx.check(i == exp, "inspect", lambda: "inspect(%s) says %s, traced %s" % (s, i, exp))


def trace_class(model, ev):
    return model.trace.class_definitions[ev]


def model_order(t, model):
    """The signals of a text in the order they are written."""
    import re
    back = dict((v, k) for k, v in ALIASES.items())
    out = []
    for ev, col in re.findall(r"([A-Za-z_][\w.]*):([A-Za-z_]\w*)", t):
        ev = back.get(ev, ev[2:] if ev.startswith("E_") else ev)
        if "%s:%s" % (ev, col) not in out:
            out.append("%s:%s" % (ev, col))
    return out


def op_names(ast):
    if ast[0] in ("s", "c", "v"):
        return [ast[0]]
    if ast[0] == "f":
        return [ast[1]] + [o for x in ast[2] for o in op_names(x)]
    return [ast[0] + ast[1]] + [o for x in ast[2:] for o in op_names(x)]

"""C48: what objects report about themselves is the state that the name of the accessor promises."""
import itertools
from .common import *
from .. import terms as T
from ..terms import NONE, const, fn

# accessor -> constructor argument(s) whose value it reports (where the names differ)
NAMED = {
    ("Autotuner", "voltages_to_set"): "voltage_to_set",
    ("ParameterTuner", "last_voltages"): "last_voltage",
    ("ParameterTuner", "last_parameters_and_variances"): ("last_parameter_values", "last_parameters_variances"),
    ("Evaluator", "raw_data"): ("raw_x_data", "raw_y_data"),
    ("SubsetTuner", "tunable_gates"): "gates",
    ("FiniteDifferencesGradientEstimator", "estimate"): "current_estimate",
    ("FiniteDifferencesGradientEstimator", "covariance"): "covariance",
}
# accessors with an own rule, or of which other properties decide the value
SKIP = {("SelfInitializingKalmanEstimator", "current_position"), ("SensingDotTuner", "evaluators")}
MODULES = ("autotuner", "parameter_tuner", "solver", "gradient", "evaluator", "experiment", "basic_dqd", "sm", "sm_tune_qqd")
NEUTRAL = ("tuple", "list", "copy", "deepcopy", "deque", "sorted", "set", "frozenset", "Series", "DataFrame", "array", "asarray", "int", "float", "bool")


def argument(t):
    """name of the constructor argument that the term is, also when it came through keyword arguments"""
    if t[0] == "param":
        return t[1]
    if t[0] == "item" and T.is_str(t[2]) and kwlike(t[1]):
        return t[2][1]
    if t[0] in ("popped", "getdefault") and len(t) > 2 and T.is_str(t[2]) and kwlike(t[1]):
        return t[2][1]
    if t[0] == "fn" and t[1] in ("getdefault", "popdefault") and len(t[2]) >= 2 and T.is_str(t[2][1]) and kwlike(t[2][0]):
        return t[2][1][1]
    return None


def kwlike(t):
    while t[0] in ("delitem", "setitem"):
        t = t[1]
    return t[0] == "param" and t[1].startswith("**")


def core(t):
    """what a term hands on: copies, conversions, selections and defaults removed"""
    while True:
        if argument(t) is not None:
            return t
        if t[0] == "fn" and t[1].lstrip(".") in NEUTRAL:
            kw = dict(t[3])
            if len(t[2]) == 1:
                t = t[2][0]
                continue
            if not t[2] and "data" in kw:
                t = kw["data"]
                continue
        if t[0] == "boolop" and t[1] == "or" and t[3][0] in ("list", "dict", "tuple", "const", "set"):
            t = t[2]
            continue
        if t[0] in ("comp",) and t[2] == ("elem", t[3][0]) and len(t[3]) == 1 and not t[4]:
            t = t[3][0]
            continue
        if t[0] == "setitem" or t[0] == "item" and t[2][0] in ("attr", "fn") or t[0] == "fn" and t[1].lstrip(".") in ("reindex", "sort_index") and t[2]:
            t = t[1] if t[0] != "fn" else t[2][0]
            continue
        return t


def values(t):
    """the values that a term with `and`, `or` and conditional expressions may have"""
    t = core(t)
    if t[0] == "boolop":
        # a falsy value of the first operand of `and` is its own, empty value
        return (values(t[2]) if t[1] == "or" else set()) | values(t[3])
    if t[0] == "ite":
        return values(t[2]) | values(t[3])
    if t[0] == "either":
        return values(t[1]) | values(t[2])
    return {t}


def arguments(t):
    out = set()
    for x in T.subterms(t):
        a = argument(x)
        if a is not None and not a.startswith("*"):
            out.add(a)
    return out


def mentions(p, a):
    """the path depends on the argument (a default may stand in for it)"""
    return any(a in arguments(f.term) or x_in(f.term, a) for f in p.facts)


def absent(p, a):
    """the path is about a missing (or empty) argument"""
    for f in p.facts:
        t, v = f.term, f.val
        while t[0] == "not":
            t, v = t[1], not v
        if t[0] == "isnone" and v and a in arguments(t) or t[0] == "in" and not v and x_in(t, a):
            return True
        if not v and argument(t) == a or t[0] == "==0" and v and a in arguments(t):
            return True
    return False


def x_in(t, a):
    return any(x[0] == "in" and x[1] == ("const", a) and kwlike(x[2]) for x in T.subterms(t))


def accessor(ctx, c, name):
    for k in ctx.prog.mro(c):
        if name in k.getters:
            return k, "get"
        if name in k.methods:
            return k, "method"
    return None, None


def table(ctx, c):
    """(accessor, kind, owner, expected arguments)"""
    init = ctx.prog.method(c, "__init__")
    pos, *rest = init.params()
    a = init.node.args
    names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} - {"self"}
    if a.kwarg:
        for k in ctx.prog.mro(c)[1:]:
            if "__init__" in k.methods:
                b = k.methods["__init__"].node.args
                names |= {x.arg for x in b.posonlyargs + b.args + b.kwonlyargs} - {"self"}
    seen = set()
    for k in ctx.prog.mro(c):
        for g, f in k.getters.items():
            if g in seen:
                continue
            seen.add(g)
            if g in names and (c.name, g) not in SKIP and (k.name, g) not in SKIP:
                yield g, "get", k, (g,)
        for (cn, g), w in NAMED.items():
            if cn == k.name and g not in [x for x in seen if x not in k.getters]:
                own, kind = accessor(ctx, c, g)
                if own is k:
                    yield g, kind, k, (w,) if isinstance(w, str) else w


def reported(ctx, c):
    rep = ctx.rep
    i0, inits = ctx.run(c, "__init__")
    inits = [p for p in inits if p.kind == "ret"]
    for g, kind, owner, want in table(ctx, c):
        con = "%s.%s" % (c.name, g)
        i, paths = ctx.run(c, g, kind)
        for q in paths:
            if q.kind != "ret":
                continue
            slots = list(q.ret[1]) if len(want) > 1 and q.ret[0] in ("tuple", "list") and len(q.ret[1]) == len(want) else [q.ret]
            if len(slots) != len(want):
                rep.unk("reports", con, "not a tuple of %d values" % len(want), q.loc)
                continue
            for s, w in zip(slots, want):
                reads = {x for x in T.subterms(s) if x[0] == "attr" and x[1] == SELF}
                done = set()
                for p in inits:
                    t = s
                    for x in sorted(reads, key=lambda x: -len(x[2])):
                        v = p.final(x[2])
                        if v is not None:
                            t = T.replace(t, x, v)
                    key = (t, mentions(p, w), absent(p, w))
                    if key in done:
                        continue
                    done.add(key)
                    # a term with several possible values: each of them
                    wrong = [x for x in (argument(core(y)) for y in values(t)) if x not in (None, w)] if len(values(t)) > 1 else []
                    k = core(t)
                    a = argument(k)
                    if wrong and not absent(p, w):
                        rep.bad("reports", con, "may report the value given for %s, not the one given for %s" % (wrong[0], w), q.loc, p)
                        continue
                    if a == w or (a is None and w in arguments(t)):
                        rep.ok("reports", con, q.loc)
                    elif a is not None and not absent(p, w):
                        rep.bad("reports", con, "reports the value given for %s, not the one given for %s" % (a, w), q.loc, p)
                    elif k[0] in ("const", "list", "tuple", "dict") and not arguments(k) and not mentions(p, w):
                        rep.bad("reports", con, "reports %s whatever was given for %s" % (T.show(k)[:60], w), q.loc, p)
                    elif mentions(p, w):
                        rep.ok("reports", con, q.loc)
                    else:
                        rep.unk("reports", con, "reports %s" % T.show(t)[:80], q.loc)


# -------------------------------------------------------------------------------------------------- evaluators of the sensing dot
def both_groups(ctx):
    rep = ctx.rep
    for c in ctx.prog.classes.values():
        init = ctx.prog.method(c, "__init__")
        if init is None or not {"cheap_evaluators", "expensive_evaluators"} <= set(init.params()[0]):
            continue
        i0, inits = ctx.run(c, "__init__")
        i, paths = ctx.run(c, "evaluators", "get")
        for q in paths:
            for p in inits:
                if p.kind != "ret" or q.kind != "ret":
                    continue
                t = q.ret
                for x in {x for x in T.subterms(t) if x[0] == "attr" and x[1] == SELF}:
                    v = p.final(x[2])
                    if v is not None:
                        t = T.replace(t, x, v)
                miss = {"cheap_evaluators", "expensive_evaluators"} - arguments(t)
                for x in T.subterms(t):
                    if x[0] == "comp" and x[4] and any(y[0] not in ("not",) for y in x[4]):
                        miss |= arguments(x[3][0]) & {"cheap_evaluators", "expensive_evaluators"}
                rep.check(True if not miss else (None if vague(t) else False), "all-evaluators", c.name + ".evaluators",
                          "%s are missing" % ", ".join(sorted(miss)).replace("_", " "), q.loc, q)


# -------------------------------------------------------------------------------------------------- Newton solver
class Und(Exception):
    pass


class Frame:
    def __init__(self, rows, cols, cells):
        self.rows, self.cols, self.cells = rows, cols, cells


class Row:
    def __init__(self, labels, vals):
        self.labels, self.vals = labels, vals


P_, G_ = ["q", "p"], ["z", "x", "y"]


class Table:
    """evaluates terms of the solver for two parameters and three gates; each estimator lists its gates in its own order"""

    def __init__(self, solver):
        self.target, self.pos, self.est = solver

    def ev(self, t, env):
        k = t[0]
        if t in env:
            return env[t]
        if t == self.target:
            return Frame(P_, [], {})
        if t == self.pos:
            return Row(G_, [("pos", g) for g in G_])
        if t == self.est:
            return [("est", j) for j in range(len(P_))]
        if k == "const":
            return t[1]
        if k in ("list", "tuple"):
            return [self.ev(x, env) for x in t[1]]
        if k == "attr" and t[2] in ("index", "columns"):
            b = self.ev(t[1], env)
            if isinstance(b, Row) and t[2] == "index":
                return list(b.labels)
            if isinstance(b, Frame):
                return list(b.rows if t[2] == "index" else b.cols)
        if k == "mcall" and t[2] == "estimate" and not t[3]:
            b = self.ev(t[1], env)
            if isinstance(b, tuple) and b[0] == "est":
                o = G_[b[1] + 1:] + G_[:b[1] + 1]
                return Row(o, [("d", P_[b[1]], g) for g in o])
        if k == "comp" and t[1] in ("list", "gen", "tuple", "dict") and not t[4]:
            out = self.comp(t, env)
            return Row([x[0] for x in out], [x[1] for x in out]) if t[1] == "dict" else out
        if k == "cat":
            parts = [self.ev(x, env) for x in t[1:]]
            if all(isinstance(x, str) for x in parts):
                return "".join(parts)
        if k == "slice" and all(x == NONE or T.is_num(x) for x in t[1:]):
            return slice(*[None if x == NONE else int(x[1]) for x in t[1:]])
        if k == "item":
            b, ix = self.ev(t[1], env), self.ev(t[2], env)
            if isinstance(b, list) and isinstance(ix, slice):
                return b[ix]
            if isinstance(b, list) and not isinstance(ix, (str, list)):
                return b[int(ix)]
            if isinstance(b, Frame) and isinstance(ix, list) and set(ix) <= set(b.cols):
                return Frame(b.rows, ix, b.cells)
            if isinstance(b, Row) and isinstance(ix, list) and set(ix) <= set(b.labels):
                d = dict(zip(b.labels, b.vals))
                return Row(ix, [d[x] for x in ix])
            if isinstance(b, Frame) and isinstance(ix, str) and ix in b.cols:
                return Row(b.rows, [b.cells[r, ix] for r in b.rows])
            if isinstance(b, Row) and isinstance(ix, str) and ix in b.labels:
                return dict(zip(b.labels, b.vals))[ix]
        if k == "fn":
            return self.fn(t, env)
        raise Und(T.show(t)[:80])

    def comp(self, t, env):
        out, pairs = [], itertools.product
        n = [self.ev(s, env) for s in t[3]]
        n = [list(s.labels) if isinstance(s, Row) else s for s in n]
        if not all(isinstance(s, list) for s in n):
            raise Und("sources")
        if t[1] == "dict" and len(n) > 1 and len(set(map(len, n))) == 1:
            # keys that depend on one of the sources only: the sources are zipped
            if sum(T.contains(t[2][1][0], ("elem", s)) for s in t[3]) == 1:
                pairs = zip
        for combo in pairs(*n):
            e = dict(env)
            for s, x in zip(t[3], combo):
                e[("elem", s)] = x
            out.append(self.ev(t[2], e))
        return out

    def fn(self, t, env):
        name, kw = t[1].lstrip("."), dict(t[3])
        a = [self.ev(x, env) for x in t[2]]
        if name == "T" and isinstance(a[0], Frame):
            f = a[0]
            return Frame(f.cols, f.rows, {(c, r): v for (r, c), v in f.cells.items()})
        if name == "T" and isinstance(a[0], tuple) and a[0][0] == "matrix":
            return ("matrix", [list(x) for x in zip(*a[0][1])])
        if name == "product" and len(a) > 1 and all(isinstance(x, list) for x in a) and not kw:
            return [list(x) for x in itertools.product(*a)]
        if name == "DataFrame" and len(t[2]) + len(kw) == 1:
            d = a[0] if a else self.ev(kw["data"], env) if "data" in kw else None
            if isinstance(d, Row) and all(isinstance(x, Row) for x in d.vals):
                return Frame(list(d.vals[0].labels), list(d.labels), {(r, c): v for c, x in zip(d.labels, d.vals) for r, v in zip(x.labels, x.vals)})
        if name == "concat":
            objs = self.ev(kw["objs"], env) if "objs" in kw else a[0]
            if set(kw) <= {"objs", "axis", "keys", "sort"} and kw.get("axis") in (const(1), const("columns")) and "keys" in kw:
                keys = self.ev(kw["keys"], env)
                if len(keys) == len(objs) and all(isinstance(o, Row) for o in objs):
                    cells = {(r, key): v for key, o in zip(keys, objs) for r, v in zip(o.labels, o.vals)}
                    return Frame(list(objs[0].labels), keys, cells)
            raise Und("concat")
        if name == "DataFrame" and not a and set(kw) <= {"data", "index", "columns"} and "data" in kw:
            d = self.ev(kw["data"], env)
            if isinstance(d, list) and all(isinstance(r, Row) for r in d) and "index" in kw:
                ix = self.ev(kw["index"], env)
                cols = self.ev(kw["columns"], env) if "columns" in kw else list(d[0].labels)
                if len(ix) == len(d):
                    return Frame(ix, cols, {(i, l): v for i, r in zip(ix, d) for l, v in zip(r.labels, r.vals)})
            raise Und("frame")
        if name in ("values", "to_numpy", "array", "asarray") and isinstance(a[0], (Frame, Row)):
            f = a[0]
            return ("matrix", [[f.cells[r, c] for c in f.cols] for r in f.rows]) if isinstance(f, Frame) else list(f.vals)
        if name in ("ravel", "flatten") and isinstance(a[0], tuple) and a[0][0] == "matrix":
            order = a[1] if len(a) > 1 else self.ev(kw["order"], env) if "order" in kw else "C"
            m = a[0][1]
            if order == "C":
                return [x for r in m for x in r]
            if order == "F":
                return [r[j] for j in range(len(m[0])) for r in m]
            raise Und("order")
        if name == "reshape" and isinstance(a[0], tuple) and a[0][0] == "matrix" and len(a) == 2 and a[1] == -1:
            return [x for r in a[0][1] for x in r]
        if name == "reindex" and isinstance(a[0], Frame) and len(a) == 1 and set(kw) <= {"columns", "index"}:
            f = a[0]
            return Frame(self.ev(kw["index"], env) if "index" in kw else f.rows, self.ev(kw["columns"], env) if "columns" in kw else f.cols, f.cells)
        if name == "sort_index" and not kw:
            if isinstance(a[0], Frame):
                return Frame(sorted(a[0].rows), a[0].cols, a[0].cells)
            if isinstance(a[0], Row):
                d = dict(zip(a[0].labels, a[0].vals))
                return Row(sorted(d), [d[x] for x in sorted(d)])
        if name == "sorted" and isinstance(a[0], list) and not kw:
            return sorted(a[0])
        if name in ("list", "tuple", "copy", "Index", "reversed") and a:
            b = list(a[0].labels) if isinstance(a[0], Row) and name != "copy" else a[0]
            return b[::-1] if name == "reversed" else b
        if name == "Series" and "index" in kw and "data" in kw or name == "Series" and a and "index" in kw:
            d = a[0] if a else self.ev(kw["data"], env)
            ix = self.ev(kw["index"], env)
            if isinstance(d, list) and isinstance(ix, list) and len(d) == len(ix):
                return Row(ix, d)
        raise Und(T.show(t)[:80])


def jacobian(ctx):
    rep = ctx.rep
    for c in ctx.prog.classes.values():
        init = ctx.prog.method(c, "__init__")
        if init is None or not {"target", "gradient_estimators", "current_position"} <= set(init.params()[0]):
            continue
        i, paths = ctx.run(c, "jacobian", "get")
        for q in paths:
            if q.kind != "ret":
                continue
            con = c.name + ".jacobian"
            try:
                f = Table([i.initial(x) for x in ("target", "current_position", "gradient_estimators")]).ev(q.ret, {})
                if not isinstance(f, Frame):
                    raise Und("no table")
                bad = [(r, g) for r in f.rows for g in f.cols if f.cells.get((r, g)) != ("d", r, g)]
                if sorted(f.rows) != sorted(P_) or sorted(f.cols) != sorted(G_):
                    bad = bad or [("rows %s" % f.rows, "columns %s" % f.cols)]
                rep.check(not bad, "jacobian", con, "the entry of %s and %s is not the estimate of this derivative" % (bad[0] if bad else ("", "")), q.loc, q)
            except (Und, KeyError, IndexError, TypeError) as e:
                rep.unk("jacobian", con, "not interpretable: %s" % e, q.loc)
        i, paths = ctx.run(c, "state", "get")
        for q in paths:
            if q.kind != "ret":
                continue
            con = c.name + ".state"
            try:
                r = Table([i.initial(x) for x in ("target", "current_position", "gradient_estimators")]).ev(q.ret, {})
                if not isinstance(r, Row):
                    raise Und("no series")
                bad = None
                for l, v in zip(r.labels, r.vals):
                    if v[0] != "d":
                        raise Und("values")
                    if not (v[1] in l and v[2] in l and l.index(v[1]) < l.index(v[2])):
                        bad = "under %s stands the derivative of %s by %s" % (l, v[1], v[2])
                if not bad and len(set(r.vals)) != len(P_) * len(G_):
                    bad = "not every derivative is reported"
                rep.check(not bad, "state-names", con, bad or "", q.loc, q)
            except (Und, KeyError, IndexError, TypeError) as e:
                rep.unk("state-names", con, "not interpretable: %s" % e, q.loc)


# -------------------------------------------------------------------------------------------------- autotuner
def ready(ctx):
    rep = ctx.rep
    i, paths = ctx.run("Autotuner", "all_estimators_ready", "get")
    con = "Autotuner.all_estimators_ready"

    def requirement(t):
        return t[0] == "mcall" and t[2] == "require_measurement"

    def literals(t, v):
        if t[0] == "not":
            yield from literals(t[1], not v)
        elif t[0] == "and" and v or t[0] == "or" and not v:
            for x in t[1]:
                yield from literals(x, v)
        elif t[0] == "fn" and t[1] == "any" and v and len(t[2]) == 1 and t[2][0][0] == "comp":
            for x in (t[2][0][2],) + tuple(t[2][0][4]):
                yield from literals(x, True)
        else:
            yield t, v

    for q in paths:
        if q.kind != "ret":
            continue
        pos = neg = False
        for t, v in (x for f in q.facts for x in literals(f.term, f.val)):
            if t[0] == "isinstance" and requirement(t[1]) and t[2] == "Series" or t[0] == "isnone" and requirement(t[1]):
                is_series = v if t[0] == "isinstance" else not v
                if not is_series:
                    neg = True
            if t[0] == "==0" and any(requirement(x) for x in T.subterms(t)):
                if v:
                    neg = True
                else:
                    pos = True
        if not T.is_bool_const(q.ret):
            rep.unk("ready", con, "result %s" % T.show(q.ret)[:60], q.loc)
        elif q.ret[1] is False or q.ret[1] == 0:
            rep.check(pos and not neg if pos or neg else None, "ready", con, "an estimator without a required measurement counts as not ready", q.loc, q)
        elif any(e.kind == "leave" and e.name == "ret" for e in q.events):
            rep.bad("ready", con, "reported before all estimators were asked", q.loc, q)
        else:
            rep.check(not (pos and not neg), "ready", con, "reported although an estimator requires a measurement", q.loc, q)


def number(t, h, cur, n):
    """value of an index term for the current index n of a hierarchy of three tuners"""
    if t == cur:
        return n
    if T.is_num(t):
        return t[1]
    if t == fn("len", h):
        return 3
    if t[0] == "poly":
        tot = 0
        for m, c in t[1]:
            for a, e in m:
                v = number(a, h, cur, n)
                if v is None:
                    return None
                c = c * v ** e
            tot += c
        return tot
    if t[0] == "fn" and t[1] in ("max", "min", "int") and not t[3]:
        v = [number(x, h, cur, n) for x in t[2]]
        return None if None in v or not v else v[0] if t[1] == "int" else (max if t[1] == "max" else min)(v)
    return None


def tuned(ctx):
    rep = ctx.rep
    i, paths = ctx.run("Autotuner", "tuned_parameters", "get")
    con = "Autotuner.tuned_parameters"
    h, cur = i.initial("tuning_hierarchy"), i.initial("current_tuner_index")
    for q in paths:
        if q.kind != "ret":
            continue
        t = q.ret
        src = [x for x in T.subterms(t) if x[0] in ("elem", "comp") and T.contains(x, h) or x[0] == "range"]
        ranges = {x for x in T.subterms(t) if x[0] == "range"}
        slices = {x for x in T.subterms(t) if x[0] == "item" and x[1] == h and x[2][0] == "slice"}
        if T.is_const(t) or t[0] == "set" and not T.contains(t, h):
            rep.unk("below", con, "result %s" % T.show(t)[:60], q.loc)
            continue
        ok = None
        msg = ""
        for r in ranges:
            lo, hi = (const(0), r[1]) if len(r) == 2 else (r[1], r[2])
            v = [(number(lo, h, cur, n), number(hi, h, cur, n)) for n in range(4)]
            if all(x is not None and y is not None for x, y in v):
                same = all(list(range(int(x), int(y))) == list(range(n)) for n, (x, y) in enumerate(v))
                ok = same if ok in (None, True) else False
                msg = "collects the parameters of the tuners %s to %s" % (T.show(lo), T.show(hi))
        for s in slices:
            a = s[2][1:]
            if len(a) >= 2 and a[2] in (NONE, const(1)):
                d = T.sub(a[1], cur) if a[1] != NONE else None
                if d is not None and T.is_num(d):
                    ok = d == const(0) and a[0] in (NONE, const(0))
                    msg = "collects the parameters of %s" % T.show(s)
        if not ranges and not slices and T.contains(t, ("elem", h)) and not vague(t) and not any(cur in list(T.subterms(x)) for x in [t] + [f.term for f in q.facts]):
            ok, msg = False, "collects the parameters of all tuners"
        rep.check(ok, "below", con, msg or "not interpretable", q.loc, q)


# -------------------------------------------------------------------------------------------------- experiments
def gates_named(ctx):
    rep = ctx.rep

    def base(t):
        while True:
            if t[0] == "fn" and t[1].lstrip(".") in ("tuple", "list", "sorted", "keys", "sort_index", "copy", "Series", "set", "index_list") and (len(t[2]) == 1 or "data" in dict(t[3])):
                t = t[2][0] if t[2] else dict(t[3])["data"]
            elif t[0] == "attr" and t[2] == "index":
                t = t[1]
            else:
                return t

    for c in ctx.prog.subclasses("Experiment"):
        if accessor(ctx, c, "gate_voltage_names")[0] is None:
            continue
        i, ns = ctx.run(c, "gate_voltage_names", "get")
        j, rs = ctx.run(c, "read_gate_voltages")
        a, b = {base(p.ret) for p in ns if p.kind == "ret"}, {base(p.ret) for p in rs if p.kind == "ret"}
        if len(a) == 1 and len(b) == 1:
            a, b = a.pop(), b.pop()
            norm = lambda t: tuple(norm(x) if isinstance(x, tuple) else x for x in (t[:5] if t and t[0] == "mcall" else t))
            same = norm(a) == norm(b)
            rep.check(True if same else (None if vague(a) or vague(b) or a[0] not in ("attr", "mcall") or b[0] not in ("attr", "mcall") else False),
                      "gate-names", c.name + ".gate_voltage_names", "names come from %s, voltages from %s" % (T.show(a), T.show(b)), ns[0].loc, ns[0])


# -------------------------------------------------------------------------------------------------- history
ALTER = ("shift", "diff", "cumsum", "abs", "head", "tail", "apply", "rolling", "dropna", "sort_values", "interpolate", "ffill", "bfill", "fillna", "round",
         "sqrt", "pct_change", "drop_duplicates")


def history(ctx):
    rep = ctx.rep
    for m in ("get_parameter_values", "get_gate_values"):
        f = ctx.prog.method(ctx.prog.cls("History"), m)
        if f is None:
            continue
        i, paths = ctx.run("History", m)
        par = ("param", f.params()[0][1])
        for q in paths:
            if q.kind != "ret":
                continue
            t, alter = q.ret, None
            while t[0] == "fn" and t[2] or t[0] == "mcall":
                n = t[1].lstrip(".") if t[0] == "fn" else t[2]
                if t[0] == "mcall":
                    t = ("fn", n, (t[1],), ())
                if n in ALTER:
                    alter = n
                elif n not in ("copy", "Series", "loc"):
                    break
                t = t[2][0]
            col = t[0] == "item" and t[1][0] in ("attr", "fn")
            if alter:
                rep.bad("stored-column", "History." + m, "the stored values are changed by %s" % alter, q.loc, q)
            elif col and t[2] == par:
                rep.ok("stored-column", "History." + m, q.loc)
            else:
                rep.check(False if t[0] == "poly" and T.contains(t, par) and not vague(t) else None, "stored-column", "History." + m,
                          "reports %s" % T.show(t)[:80], q.loc, q)
    i, paths = ctx.run("History", "get_evaluator_data")
    for q in paths:
        if q.kind == "ret":
            n = q.ret[1].lstrip(".") if q.ret[0] == "fn" else None
            rep.check(False if n in ALTER else True if q.ret[0] == "item" else None, "stored-column", "History.get_evaluator_data",
                      "the stored data are changed by %s" % n, q.loc, q)


def c48(ctx):
    rep = ctx.rep
    for c in ctx.prog.classes.values():
        if c.module.name.split(".")[-1] in MODULES and ctx.prog.method(c, "__init__") is not None:
            reported(ctx, c)
    both_groups(ctx)
    jacobian(ctx)
    ready(ctx)
    tuned(ctx)
    gates_named(ctx)
    history(ctx)
    rep.need("reports", 30)
    rep.need("all-evaluators")
    rep.need("jacobian")
    rep.need("state-names")
    rep.need("ready", 2)
    rep.need("below")
    rep.need("gate-names", 3)
    rep.need("stored-column", 3)


RULES = {
    "C48": (c48, "Accessors of tuners, solvers, estimators, evaluators, experiments, autotuner and history: value of the accessor after construction compared "
            "with the constructor argument it is named after; Jacobian and state of the Newton solver evaluated over symbolic derivatives; readiness and "
            "tuned parameters compared with their definition."),
}

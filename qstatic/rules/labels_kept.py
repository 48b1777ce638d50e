"""C47: values keep their labels.  All labelled data of a method (its state, arguments and results of calls) get the same labels, each in an
order of its own; the terms of what is stored, handed on and returned are evaluated over these models, and a value that ends up under
the label of another one is reported."""
import ast
import itertools
import zlib
from .common import *
from .. import terms as T
from ..terms import NONE
from ..labels import Labels, S, Ix, Undecided, Fails, show

MODULES = ("solver", "gradient", "parameter_tuner", "autotuner", "experiment", "basic_dqd", "sm", "sm_tune_qqd")
LABELS = ("a", "b", "c", "d")
ORDERS = [p for p in itertools.permutations(LABELS) if p != LABELS and p != LABELS[::-1]]
KEEP = ("Solver", "GradientEstimator")      # classes whose arrays rely on the order of their series
LEAF = ("param", "attr", "call", "mcall", "new", "popped", "item", "elem", "val", "key", "iloc", "elemrow", "vals")


def lv(leaf, l):
    return ("lv", leaf, l)


def tags(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "lv":
            out.add(v[2])
        else:
            for x in v:
                if isinstance(x, tuple):
                    tags(x, out)
    return out


def companion(t):
    if t[0] == "item" and t[1][0] in ("mcall", "call") and "evaluate" in t[1][1:3] and t[2] == ("const", 1):
        return ("item", t[1], ("const", 0))
    return tuple(companion(x) if isinstance(x, tuple) and x else x for x in t)


class Model(Labels):
    def __init__(self, series, orders):
        Labels.__init__(self, {})
        self.series, self.orders, self.n = series, orders, len(orders)

    def order(self, t):
        # values and their variances come from one evaluation, under the same labels
        if t == ("param", "variances"):
            t = ("param", "values")
        t = companion(t)
        if t not in self.orders:
            used = set(self.orders.values())
            free = [o for o in ORDERS if o not in used] or ORDERS
            self.orders[t] = free[(len(self.orders) * 5) % len(free)]
        return self.orders[t]

    def leaf(self, t):
        if t in self.series:
            o = self.order(t)
            return S(o, [lv(t, l) for l in o])
        return ("opaque", t)

    def ev(self, t, env=()):
        k = t[0]
        if k == "lv" or k == "opaque":
            return t
        if t in self.series:
            return self.leaf(t)
        # columns of a frame share its order
        if k == "item" and t[1] in self.series and T.is_const(t[2]) and isinstance(t[2][1], str) and t[2][1] not in LABELS:
            o = self.order(t[1])
            return S(o, [lv(t, l) for l in o])
        if k == "attr" and t[1] in self.series and t[2] in ("desired", "maximum", "minimum", "tolerance", "cost_threshold", "rescaling_factor"):
            o = self.order(t[1])
            return S(o, [lv(t, l) for l in o])
        try:
            return Labels.ev(self, t, env)
        except Undecided:
            if env and any(x[0] in ("key", "val", "elem") for x in T.subterms(t)):
                raise
            if k == "setitem":
                raise
            return ("opaque", t)

    def truth(self, t, env=()):
        if t[0] == "isnone":
            v = self.ev(t[1], env)
            if v == NONE or isinstance(v, S):
                return v == NONE
            raise Undecided(T.show(t))
        return Labels.truth(self, t, env)

    @staticmethod
    def plain(v):
        return tuple(v.vals) if isinstance(v, S) else v

    def labs(self, v):
        if isinstance(v, tuple) and not isinstance(v, Ix) and len(v) == 2 and v[0] == "opaque":
            return Ix(self.order(v[1]))
        return Labels.labs(self, v)

    def fn(self, t, env):
        if t[1].lstrip(".") in ("isna", "notna") and tags(self.plain(self.ev(t[2][0], env))):
            raise Undecided(T.show(t))
        if t[1] in ("abs", "sqrt", "isna", "notna") and t[1] not in ("isna", "notna"):
            v = self.ev(t[2][0], env)
            if isinstance(v, S):
                return S(v.labels, [("fn", t[1], (x,), ()) for x in v.vals])
        return Labels.fn(self, t, env)


def series_terms(prog, func, terms):
    """terms that are labelled: their labels are asked for, or they are annotated so"""
    out = set()
    for t in terms:
        for x in T.subterms(t):
            if x[0] == "attr" and x[2] == "index" or x[0] == "setitem" and labelled_key(x[2]):
                b = x[1]
                while b[0] == "setitem" or b[0] == "fn" and b[1].lstrip(".") in ("sort_index", "copy", "deepcopy", "astype") and b[2]:
                    b = b[1] if b[0] == "setitem" else b[2][0]
                if b[0] in LEAF:
                    out.add(b)
            if x[0] == "fn" and x[1] == "concat" and not dict(x[3]).get("axis"):
                out.add(x)
    a = func.node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        if p.annotation is not None and ast.unparse(p.annotation) in ("pd.Series", "pandas.Series", "Series"):
            out.add(("param", p.arg))
    return out


def labelled_key(k):
    return k[0] == "attr" and k[2] == "index" or k[0] == "fn" and k[1] in ("intersection", "setdiff", "isin")


def path_terms(p):
    out = []
    me = p.i.self_ref
    for (b, n), r in p.st.heap.items():
        if b == me and not n.startswith("<"):
            out.append(("self.%s" % n, p.loc, p.i.snap(p.st, r), n))
    for e in p.events:
        if e.kind == "call" and e.recv is not None and not (e.name or "").startswith(("debug", "info", "warning")):
            for j, x in enumerate(e.args):
                out.append(("argument %d of %s" % (j + 1, e.name), e.loc, x, None))
            for kx, x in e.kw.items():
                out.append(("argument %s of %s" % (kx, e.name), e.loc, x, None))
    if p.kind == "ret":
        out.append(("the result", p.loc, p.ret, None))
        if p.ret[0] == "new":
            for j, x in enumerate(p.ret[2]):
                out.append(("argument %d of the new %s" % (j + 1, p.ret[1]), p.loc, x, None))
            for kx, x in p.ret[3]:
                out.append(("argument %s of the new %s" % (kx, p.ret[1]), p.loc, x, None))
        for n, r in p.i.param_refs.items():
            out.append(("argument %s" % n, p.loc, p.i.snap(p.st, r), None))
    return out


def mixed(v):
    """(label, foreign label) of a series that holds a value under another name"""
    if isinstance(v, S):
        for l, x in zip(v.labels, v.vals):
            t = tags(x)
            if isinstance(l, str) and t - {l}:
                return l, sorted(t - {l})[0], x
    return None


def parts(v):
    if isinstance(v, Ix):
        for x in v:
            yield from parts(x)
    else:
        yield v


def classes(prog):
    for c in prog.classes.values():
        if c.module.name.split(".")[-1] in MODULES:
            yield c


def start_orders(ctx, c):
    """order of the labelled attributes after construction: attributes that are built over the same labels share theirs"""
    f = ctx.prog.method(c, "__init__")
    if f is None:
        return {}
    try:
        i = ctx.interp(labels=True)
        paths = i.run_method(c, "__init__", "method")
    except Exception:
        return {}
    out, bad, n = {}, set(), 0
    for p in paths:
        if p.kind != "ret" or ctx.impossible(c, p):
            continue
        n += 1
        terms = path_terms(p)
        m = Model(series_terms(ctx.prog, f, [x[2] for x in terms] + [x.term for x in p.facts]), {})
        for _, _, t, name in terms:
            if name is None:
                continue
            try:
                v = m.ev(t)
            except (Undecided, Fails, RecursionError):
                v = None
            if isinstance(v, S) and sorted(v.labels) == sorted(LABELS):
                out.setdefault(name, []).append(v.labels)
            else:
                bad.add(name)
    groups = {}
    for name, o in sorted(out.items()):
        if name not in bad and len(o) == n:
            groups.setdefault(tuple(o), []).append(name)
    return {name: ORDERS[(7 * j) % len(ORDERS)] for j, names in enumerate(groups.values()) for name in names}


def c47(ctx):
    rep = ctx.rep
    keep = set()
    for b in KEEP:
        keep |= {c.name for c in ctx.prog.subclasses(b)} | {b}
    for c in classes(ctx.prog):
        orders0 = start_orders(ctx, c)
        for kind, table in (("method", c.methods), ("get", c.getters), ("set", c.setters)):
            for name, f in table.items():
                if f.kind != "function" or f.is_generator:
                    continue
                one(ctx, c, name, kind, f, orders0, c.name in keep)
    rep.need("own-label", 40)
    rep.need("order-kept", 6)


def one(ctx, c, name, kind, f, orders0, keep):
    rep = ctx.rep
    con = "%s.%s" % (c.name, name)
    try:
        i = ctx.interp(labels=True)
        paths = i.run_method(c, name, kind)
    except Exception as e:
        rep.unk("own-label", con, "not analysable: %s" % type(e).__name__)
        return
    rep.used(i)
    seen = set()
    for p in paths:
        if ctx.impossible(c, p):
            continue
        terms = path_terms(p)
        ser = series_terms(ctx.prog, f, [x[2] for x in terms] + [x.term for x in p.facts])
        ser |= {("attr", SELF, n) for n in orders0}
        m = Model(ser, {("attr", SELF, n): o for n, o in orders0.items()})
        held = "?"
        for what, loc, t, n in terms:
            if (what, t) in seen or t[0] == "const" or t == SELF:
                continue
            try:
                v = m.ev(t)
            except (Undecided, RecursionError):
                continue
            except Fails:
                continue
            for x in parts(v):
                if not isinstance(x, S) or not any(tags(y) for y in x.vals):
                    continue
                bad = mixed(x)
                if bad and held == "?":
                    held = m.holds(p.facts)
                if bad and held is False:
                    continue
                seen.add((what, t))
                if bad:
                    rep.check(False, "own-label", con, "%s: under label %s stands %s, a value of label %s (labels in different order)" % (
                        what, bad[0], show(bad[2])[:120], bad[1]), loc, p)
                else:
                    rep.ok("own-label", con, loc)
            if n is not None and keep and name != "__init__" and n in orders0 and isinstance(v, S):
                ok = v.labels == orders0[n]
                if not ok and held == "?":
                    held = m.holds(p.facts)
                if not ok and held is False:
                    continue
                rep.check(ok, "order-kept", con, "%s takes the labels of other data: %s instead of its own %s" % (
                    what, ", ".join(map(str, v.labels)), ", ".join(orders0[n])), loc, p)


RULES = {
    "C47": (c47, "All methods of solvers, estimators, tuners, autotuner and experiments: terms of stored state, results and arguments evaluated over "
            "labelled series whose labels stand in different orders; each value must stand under its own label, and arrays of solvers and "
            "estimators keep their order."),
}

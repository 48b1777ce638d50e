"""C39: values outside an evaluator's stated limits are reported as NaN, values inside as measured."""
import itertools, math
from .common import *
from .. import terms as T
from ..orders import Model, Undecided, NaN
from ..terms import NONE

FULL = {"numpy.full": 1, "full": 1, "numpy.zeros": 0., "zeros": 0., "numpy.ones": 1., "ones": 1., "numpy.empty": NaN, "empty": NaN}


class NotVisited(Exception):
    """the loop does not come to the position under consideration"""


class Elem(Model):
    """Order-type model that looks at position j of every vector; `ana` entries are records of numbers."""

    def __init__(self, vecs, scal, recs, fields, j, n):
        super().__init__(vecs, scal, n)
        self.recs, self.fields, self.j = recs, fields, j

    def ev(self, t, i=None):
        if t in self.scal or t in self.vecs:
            return super().ev(t, i)
        if t in self.recs:
            return [("rec", k) for k in range(self.n)]
        k = t[0]
        if k == "attr":
            b = self.ev(t[1], i)
            if isinstance(b, tuple) and b[0] == "rec" and (b[1], t[2]) in self.fields:
                return self.fields[(b[1], t[2])]
            if isinstance(b, list) and t[2] in ("values", "iloc", "loc"):
                return b
            raise Undecided(T.show(t))
        if k in ("elem", "elemrow", "val"):
            if i is None and (t[1][0] == "range" or t[1][0] == "fn" and t[1][1] in ("range", "numpy.arange")):
                r = self.span(t[1])
                if float(self.j) not in r:
                    raise NotVisited()
                return float(self.j)
            v = self.ev(t[1], i)
            if isinstance(v, list):
                return v[self.j if i is None else i]
            raise Undecided(T.show(t))
        if k == "range":
            return self.span(t)
        if k == "index":
            return float(self.j if i is None else i)
        if k in ("item", "iloc"):
            b, x = self.ev(t[1], i), self.ev(t[2], i)
            if isinstance(b, list):
                if isinstance(x, float) and x == int(x) and -len(b) <= x < len(b):
                    return b[int(x)]
                if isinstance(x, list) and all(isinstance(y, bool) for y in x):
                    raise Undecided("selection")
            raise Undecided(T.show(t))
        if k == "setitem":
            b = self.ev(t[1], i)
            if not isinstance(b, list):
                raise Undecided(T.show(t))
            b = list(b)
            try:
                v = self.ev(t[3], i)
                if t[2][0] == "slice":
                    x = [None if y == NONE else self.ev(y, i) for y in t[2][1:]]
                    for q in range(len(b))[slice(*[None if y is None else int(y) for y in x])]:
                        b[q] = v[q] if isinstance(v, list) else v
                    return b
                x = self.ev(t[2], i)
            except NotVisited:
                return b
            if isinstance(x, float) and x == int(x) and -len(b) <= x < len(b) and not isinstance(v, list):
                b[int(x)] = v
                return b
            if isinstance(x, list) and len(x) == len(b) and all(isinstance(y, bool) for y in x):
                for q, on in enumerate(x):
                    if on:
                        b[q] = v[q] if isinstance(v, list) else v
                return b
            raise Undecided(T.show(t))
        if k == "append":
            b = self.ev(t[1], i)
            if isinstance(b, list):
                return b + [self.ev(t[2], i)]
            raise Undecided(T.show(t))
        if k == "fn":
            name, a = t[1], t[2]
            if name in FULL and a:
                try:
                    n = int(self.ev(a[0], i))
                except (TypeError, ValueError):
                    raise Undecided(T.show(t))
                fill = FULL[name]
                if fill == 1 and name.endswith("full"):
                    x = a[1] if len(a) > 1 else dict(t[3]).get("fill_value")
                    if x is None:
                        raise Undecided(T.show(t))
                    fill = self.ev(x, i)
                return [fill] * n
            if name in ("Series",) and not a:
                d = dict(t[3]).get("data")
                if d is None:
                    raise Undecided(T.show(t))
                v = self.ev(d, i)
                return v if isinstance(v, list) else [v] * self.n
            if name in ("numpy.where", "where") and len(a) == 3:
                c, x, y = (self.ev(z, i) for z in a)
                return self.lift(lambda p, q, r: q if p else r, c, x, y)
            if name.split(".")[-1] in ("max", "min", "amax", "amin", "nanmax", "nanmin", "mean", "sum") and len(a) == 1:
                v = self.ev(a[0], i)
                if isinstance(v, list) and v and all(isinstance(y, float) for y in v):
                    b = name.split(".")[-1]
                    if b in ("mean", "sum"):
                        return sum(v) / (len(v) if b == "mean" else 1)
                    if not any(y != y for y in v):
                        return (max if "max" in b else min)(v)
                raise Undecided(T.show(t))
            if name in ("numpy.clip", "clip"):
                raise Undecided(T.show(t))
            if name in ("numpy.isnan", "isnan"):
                return self.lift(lambda y: y != y, self.ev(a[0], i))
            if name in ("numpy.logical_or", "numpy.logical_and") and len(a) == 2:
                x, y = self.ev(a[0], i), self.ev(a[1], i)
                return self.lift((lambda p, q: bool(p or q)) if name.endswith("or") else (lambda p, q: bool(p and q)), x, y)
            if name in ("bitor", "bitand") and len(a) == 2:
                x, y = self.ev(a[0], i), self.ev(a[1], i)
                return self.lift((lambda p, q: bool(p or q)) if name.endswith("or") else (lambda p, q: bool(p and q)), x, y)
            if name == "len" and a and a[0] in self.recs:
                return float(self.n)
            if name in ("numpy.arange", "range"):
                return self.span(t)
        if k == "comp" and t[1] != "dict" and len(t[3]) == 1 and not t[4]:
            return [self.ev(t[2], q) for q in range(self.n)]
        return super().ev(t, i)

    def span(self, t):
        args = t[2] if t[0] == "fn" else t[1:]
        return [float(x) for x in range(*[int(self.ev(y)) for y in args])]


def reported_data(p):
    r = p.ret
    if r is None or r[0] not in ("tuple", "list") or len(r[1]) != 2:
        return None
    s = r[1][0]
    if s[0] == "fn" and s[1] == "Series":
        d = dict(s[3])
        if s[2] and "data" not in d:
            return s[2][0]
        return d.get("data")
    return s


def consistent(p, m, j, limits):
    """(possible, undecided facts that speak of the limits)"""
    und = []
    for f in p.facts:
        try:
            v = m.ev(f.term)
        except NotVisited:
            continue
        except (Undecided, TypeError, IndexError, ValueError, OverflowError, ZeroDivisionError):
            if any(T.contains(f.term, l) for l in limits):
                und.append(f)
            continue
        if isinstance(v, list):
            if f.loops:
                v = v[j]
            else:
                continue
        if bool(v) != f.val:
            return False, []
    return True, und


def scalar_limits(ctx, name, lo_key, hi_key):
    rep = ctx.rep
    cls = ctx.prog.cls(name)
    i, paths = ctx.run(cls, "evaluate")
    if i is None:
        return
    ex = i.export() or {}
    LO, HI = ex.get(lo_key), ex.get(hi_key)
    if LO is None or HI is None:
        rep.unk("limits", name, "%s does not export %s and %s" % (name, lo_key, hi_key))
        return
    con = name + ".evaluate"
    paths = [p for p in paths if p.kind == "ret"]
    data = [(p, reported_data(p)) for p in paths]
    vs = set()
    for p, d in data:
        if d is None:
            rep.unk("limits", con, "the reported value is not interpretable", p.loc)
            return
        for x in values(d):
            if x not in (LO, HI) and x[0] != "const":
                vs.add(x)
    if len(vs) != 1:
        rep.unk("limits", con, "the reported value is not one quantity: %s" % ", ".join(sorted(T.show(v)[:80] for v in vs)))
        return
    V = vs.pop()
    for l, what in ((LO, "lower"), (HI, "upper")):
        used = any(T.contains(f.term, l) for p in paths for f in p.facts) or any(T.contains(d, l) for p, d in data)
        rep.check(used, "limits", "%s/%s" % (con, what), "the %s limit is not used" % what, paths[0].loc if paths else None)
    for p in paths:
        for f in p.facts:
            for x in T.subterms(f.term):
                if x[0] in ("<0", "<=0") and (T.contains(x, LO) or T.contains(x, HI)) and not T.contains(x, V) and not vague(x):
                    rep.bad("limits", con + "/quantity", "the limits are applied to another quantity than the reported value: %s" %
                            T.show(x)[:200], p.loc, p)
    types = [("below", 0.), ("at the lower limit", 1.), ("inside", 2.), ("at the upper limit", 3.), ("above", 4.)]
    for word, v in types:
        for lo, hi in ((1., 3.), (-math.inf, 3.), (1., math.inf), (-math.inf, math.inf)):
            for shift in (0., -2., -10.):
                x, l, u = v + shift, lo + shift, hi + shift
                m = Elem({}, {V: x, LO: l, HI: u}, set(), {}, 0, 1)
                some = False
                c = "%s/%s%s%s" % (con, word, "" if lo == 1. and hi == 3. else " (limits %s, %s)" % (lo, hi),
                                   {0.: "", -2.: ", around zero", -10.: ", negative"}[shift])
                for p, d in data:
                    ok, und = consistent(p, m, 0, (LO, HI))
                    if ok:
                        some = True
                        verdict(rep, c, p, d, m, 0, x, x < l or x > u, und)
                if not some:
                    rep.unk("limits", c, "no path for this case")


def values(d):
    """the non-NaN alternatives of a reported value"""
    if d == T.NAN:
        return []
    if d[0] == "ite":
        return values(d[2]) + values(d[3])
    if d[0] == "fn" and d[1] in ("numpy.where", "where") and len(d[2]) == 3:
        return values(d[2][1]) + values(d[2][2])
    if d[0] in ("list", "tuple") and len(d[1]) == 1:
        return values(d[1][0])
    if d[0] == "fn" and d[1] in ("array", "asarray", "float") and len(d[2]) == 1:
        return values(d[2][0])
    return [d]


def verdict(rep, con, p, d, m, j, v, outside, und):
    if und:
        rep.unk("limits", con, "a condition on the limits is not interpretable: %s" % T.show(und[0].term)[:200], p.loc)
        return
    try:
        r = m.ev(d)
        if isinstance(r, list):
            r = r[j]
    except (Undecided, TypeError, IndexError, ValueError, OverflowError, ZeroDivisionError) as e:
        rep.unk("limits", con, "the reported value is not interpretable: %s" % str(e)[:200], p.loc)
        return
    if outside:
        rep.check(r != r, "limits", con, "a value outside the limits is reported", p.loc, p)
    else:
        rep.check(r == v or (None if r == r else False), "limits", con, "a value within the limits is not reported", p.loc, p)


def others(rep, con, p, d, m, j, q, lo, hi, z, h):
    """what the iteration of transition j does to the other transitions"""
    try:
        r = m.ev(d)
    except (Undecided, NotVisited, TypeError, IndexError, ValueError, OverflowError, ZeroDivisionError):
        return
    if not isinstance(r, list):
        return
    loop = [n for n, f in enumerate(p.facts) if f.loops]
    ended = j == 0 and loop and any(f.val and f.term[0] == "fn" and f.term[1] == "any" for f in p.facts[loop[-1] + 1:])
    for o in range(m.n):
        if o == j:
            continue
        outside = q[o] < lo[o] or q[o] > hi[o] or z[o] < h
        c = con.rsplit("/", 1)[0] + "/transition %d" % o
        if not outside:
            rep.check(r[o] == q[o] or (None if r[o] == r[o] else False), "limits", c,
                      "a value within the limits is lost because of another transition", p.loc, p)
        elif ended:
            rep.check(r[o] != r[o], "limits", c, "a value outside the limits is reported: the loop ends before it", p.loc, p)


def response(ctx, name="QQDResp"):
    rep = ctx.rep
    cls = ctx.prog.cls(name)
    i, paths = ctx.run(cls, "evaluate")
    if i is None:
        return
    ex = i.export() or {}
    keys = ("min_position", "max_position", "min_transition_height")
    LO, HI, VIS = (ex.get(k) for k in keys)
    if None in (LO, HI, VIS):
        rep.unk("limits", name, "%s does not export %s" % (name, ", ".join(keys)))
        return
    con = name + ".evaluate"
    paths = [p for p in paths if p.kind == "ret"]
    data = [(p, reported_data(p)) for p in paths]
    if any(d is None for p, d in data) or not data:
        rep.unk("limits", con, "the reported values are not interpretable")
        return
    recs = set()
    for p, d in data:
        for t in [d] + [f.term for f in p.facts]:
            for x in T.subterms(t):
                if x[0] == "attr" and x[2] == "ana":
                    recs.add(x)
    for l, what in ((LO, "lower"), (HI, "upper"), (VIS, "transition height")):
        used = any(T.contains(f.term, l) for p in paths for f in p.facts) or any(T.contains(d, l) for p, d in data)
        rep.check(used, "limits", "%s/%s limit" % (con, what), "the %s limit is not used" % what, paths[0].loc)
    if len(recs) != 1:
        rep.unk("limits", con, "the analysed transitions are not one list")
        return
    # two transitions with limits far apart: a limit of the other one is always violated
    lo, hi, h = [1., 101.], [3., 103.], 10.
    pos = [("below", -1), ("at the lower limit", 0), ("inside", 1), ("at the upper limit", 2), ("above", 3)]
    vis = [("too low", 9.), ("just high enough", 10.), ("high", 11.)]
    seen = {}
    for (w0, x0), (w1, x1), (y0, v0), (y1, v1) in itertools.product(pos, pos, vis, vis):
        q, z = [lo[0] + x0, lo[1] + x1], [v0, v1]
        fields = {(k, "position"): q[k] for k in (0, 1)}
        fields.update({(k, "visiblity"): z[k] for k in (0, 1)})
        for j in (0, 1):
            m = Elem({LO: lo, HI: hi}, {VIS: h}, recs, fields, j, 2)
            outside = q[j] < lo[j] or q[j] > hi[j] or z[j] < h
            some = False
            for p, d in data:
                ok, und = consistent(p, m, j, (LO, HI, VIS))
                if not ok:
                    continue
                some = True
                c = "%s/transition %d %s, %s" % (con, j, (w0, w1)[j], (y0, y1)[j])
                if und and (c, "u") in seen:
                    continue
                seen[(c, "u")] = 1
                verdict(rep, c, p, d, m, j, q[j], outside, und)
                if not und:
                    others(rep, c, p, d, m, j, q, lo, hi, z, h)
            if not some and ("none", j) not in seen:
                seen[("none", j)] = 1
                rep.unk("limits", "%s/transition %d" % (con, j), "no path for this case")


def defaults(ctx, name, keys):
    """without a stated limit there is none"""
    rep = ctx.rep
    cls = ctx.prog.cls(name)
    f = ctx.prog.method(cls, "__init__")
    i, paths = ctx.run(cls, "__init__")
    if i is None:
        return
    for key, want in keys:
        d = default_of(f, key)
        con = "%s(%s)" % (name, key)
        if d is None:
            rep.unk("no-limit", con, "no default value found")
            continue
        if d != "None":
            rep.check(infinite(d, want), "no-limit", con, "without %s the limit is %s" % (key, d), (f.path if hasattr(f, "path") else "", f.node.lineno, f.qual))
            continue
        attr = "_" + key
        par = ("param", key)
        n = 0
        for p in paths:
            if p.kind == "raise" or p.truth(T.is_none(par)) is not True:
                continue
            v = p.final(attr)
            n += 1
            try:
                r = Elem({}, {}, set(), {}, 0, 1).ev(v)
                r = r[0] if isinstance(r, list) else r
                good = r == want * math.inf
            except (Undecided, TypeError, IndexError):
                good = None
            rep.check(good, "no-limit", con, "without %s the limit is %s" % (key, T.show(v)[:120]), p.loc, p)
        if not n:
            rep.unk("no-limit", con, "no path without a limit")


def default_of(f, name):
    import ast
    a = f.node.args
    pos = a.posonlyargs + a.args
    dd = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    dd.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
    n = dd.get(name)
    return None if n is None else ast.unparse(n)


def infinite(text, sign):
    t = text.replace(" ", "").replace("(", "").replace(")", "").replace("'", "").replace('"', "")
    neg = t.startswith("-") or "float-inf" in t
    if "inf" not in t.lower():
        try:
            float(t)
            return False
        except ValueError:
            return None
    return neg == (sign < 0)


def c39(ctx):
    scalar_limits(ctx, "QQDLine", "minimal_value", "maximal_value")
    scalar_limits(ctx, "QQDLead", "minimal_value", "maximal_value")
    response(ctx)
    for n in ("QQDLine", "QQDLead"):
        defaults(ctx, n, (("minimal_value", -1), ("maximal_value", 1)))
    defaults(ctx, "QQDResp", (("min_position", -1), ("max_position", 1), ("min_transition_height", -1)))
    ctx.rep.need("limits", 60)
    ctx.rep.need("no-limit", 7)


RULES = {
    "C39": (c39, "evaluate() of the evaluators with limits is turned into paths over value terms; every order type of the value (each transition: position and visibility) relative to its limits is enumerated, the consistent paths are selected and the reported value is compared with NaN / the measured value. Limits of the two transitions lie far apart, so a limit taken from the other position shows. Defaults are -inf / +inf."),
}

"""C50: a position read off a scan is a point of that scan."""
from .common import *
from .evaluators import evaluators, helper_functions, entries, pair
from .. import terms as T
from ..terms import const, item, NONE

COUNTS = ("N_points", "n_points", "n_lines", "npoints", "N_lines")


def plain(t):
    """what is behind copies and changes of shape"""
    while t[0] == "fn" and t[1].split(".")[-1] in ("squeeze", "copy", "asarray", "array", "ravel") and len(t[2]) == 1:
        t = t[2][0]
    return t


def owner(t):
    """the measurement whose options t are"""
    while t[0] == "setitem":
        t = t[1]
    return t[1] if t[0] == "attr" and t[2] == "options" else None


def option(t):
    """(measurement, key, options) of an option that is read"""
    if t[0] == "item" and T.is_const(t[2]):
        m = owner(t[1])
        if m is not None:
            return m, t[2][1], t[1]
    return None


def written(opts, key):
    while opts[0] == "setitem":
        if opts[2] == const(key):
            return opts[3]
        opts = opts[1]
    return None


def lin(t):
    """(start, stop, number) of an axis"""
    if t[0] == "fn" and t[1].split(".")[-1] == "linspace":
        kw = dict(t[3])
        a = [kw.get(n, t[2][k] if len(t[2]) > k else None) for k, n in enumerate(("start", "stop", "num"))]
        if a[0] is not None and a[1] is not None:
            return a
    return None


def options_in(t, key):
    return [(x, option(x)) for x in T.subterms(t) if option(x) is not None and option(x)[1] == key]


def half(t):
    return T.mul(const(1), T.div(t, const(2)))


def is_read(t):
    return t[0] == "mcall" and t[2] == "read_gate_voltages"


class Axis:
    def __init__(self, t):
        self.t = t
        self.start, self.stop, self.num = lin(t)
        self.half = half(T.sub(self.stop, self.start))
        self.centre = half(T.add(self.start, self.stop))
        r = options_in(self.half, "range")
        self.meas = r[0][1][0] if r else None
        self.opts = max((o[2] for _, o in r), key=lambda o: len(str(o))) if r else None
        self.range = r[0][0] if r else None

    def centres(self):
        """the centre of the scan: (one term, or a list with a term per axis)"""
        return written(self.opts, "center") or item(self.opts, const("center"))


def same_centre(got, want):
    if got == want or got == ("elem", want) or got[0] == "item" and got[1] == want and got[2][0] in ("index", "elem"):
        return True
    if got[0] == "item" and want[0] == "item" and is_read(got[1]) and is_read(want[1]):
        return got[2] == want[2]
    return False


def axes_of(t):
    return [Axis(x) for x in T.subterms(t) if lin(x) is not None]


def nth(t, k):
    return t[1][k] if t[0] in ("list", "tuple") and k < len(t[1]) else item(t, const(k))


def moved(p, ax):
    """what is added to an axis around zero before it is used"""
    res = []
    for t in [p.ret] + [e.args[1] for e in p.events if e.kind == "mutate" and len(e.args) > 1] + list(getattr(ax, "where", ())):
        for x in T.subterms(t):
            if x[0] == "poly" and any(mono == ((ax.t, 1),) and c == 1 for mono, c in x[1]):
                r = T.sub(x, ax.t)
                if r not in res:
                    res.append(r)
    return res


def check_axis(rep, con, p, ax, k, several, asked):
    """one axis against its measurement; k: its place among the axes of a scan of several dimensions"""
    show = T.show(ax.t)[:140]
    if ax.meas is None:
        rep.unk("axis", con, "axis %s is not built from the range of a measurement" % show, p.loc)
        return
    m = T.show(ax.meas)[:60]
    if ax.half != ax.range:
        pure = [x for x in T.subterms(T.replace(ax.half, ax.range, const(1))) if x[0] in ("mcall", "param", "unk")]
        rep.check(None if vague(ax.half) or pure else False, "axis", con,
                  "the axis of %s reaches %s to either side of its centre, not its range" % (m, T.show(ax.half)[:80]), p.loc, p)
    else:
        rep.ok("axis", con)
    known = [a for a in asked if not vague(a)]
    if asked:
        rep.check(True if ax.meas in asked else (None if len(known) < len(asked) or vague(ax.meas) else False), "own-scan", con,
                  "the axis is that of %s, while the data are measured with %s" % (m, ", ".join(T.show(a)[:50] for a in asked)), p.loc, p)
    whole = ax.centres()
    cands = [nth(whole, k)] if several else [whole] + ([nth(whole, j) for j in range(len(whole[1]))] if whole[0] in ("list", "tuple") else [])
    orig = option(ax.range)
    if orig:
        for o in set(x[1][2] for x in options_in(ax.centre, "center")):
            if owner(o) == ax.meas:
                cands.append(nth(item(o, const("center")), k) if several else item(o, const("center")))
    if any(same_centre(ax.centre, c) for c in cands):
        rep.ok("centre", con)
    elif ax.centre == const(0) and moved(p, ax):
        rest = moved(p, ax)
        rep.check(True if all(any(same_centre(r, c) for c in cands) for r in rest) else None, "centre", con,
                  "the axis of %s is moved by %s" % (m, T.show(rest[0])[:80]), p.loc)
    else:
        rep.check(None if vague(ax.centre) or any(vague(c) for c in cands) else False, "centre", con,
                  "the axis of %s is centred at %s, the scan at %s" % (m, T.show(ax.centre)[:80], T.show(cands[0])[:80]), p.loc, p)
    if ax.num is None:
        rep.bad("points", con, "the axis of %s has a number of points of its own, whatever was measured" % m, p.loc, p)
        return
    opts = [o for key in COUNTS for _, o in options_in(ax.num, key)]
    data = [x for x in T.subterms(ax.num) if x[0] == "mcall" and x[2] == "measure"]
    if opts:
        bad = None
        if any(o[0] != ax.meas for o in opts):
            bad = "the axis of %s has as many points as %s" % (m, T.show(opts[0][0])[:50])
        elif option(ax.num) is None and ax.num[0] == "poly" and not any(x[0] in ("mcall", "param", "unk") for x in T.subterms(ax.num)):
            bad = "the axis of %s has %s points" % (m, T.show(ax.num)[:60])
        rep.check(bad is None, "points", con, bad or "", p.loc, p)
    elif data:
        bad = None
        if any(d[3] and d[3][0] != ax.meas and not vague(d[3][0]) for d in data):
            bad = "the axis of %s is as long as the data of %s" % (m, T.show(data[0][3][0])[:50])
        n = ax.num
        if several and n[0] == "item" and T.is_num(n[2]) and n[1][0] == "fn" and n[1][1].split(".")[-1] == "shape" and n[2] != const(k) \
                and n[1][2][0] in data:
            bad = "axis %d of %s is as long as axis %s of the data" % (k, m, T.show(n[2]))
        if not several and n[0] == "item" and T.is_num(n[2]) and n[1][0] == "fn" and n[1][1].split(".")[-1] == "shape":
            for x in T.subterms(p.ret):
                if x[0] == "fn" and x[1].split(".")[-1] in ("mean", "nanmean", "median") and x[2] and x[2][0] == n[1][2][0] and \
                        dict(x[3]).get("axis", x[2][1] if len(x[2]) > 1 else None) == n[2]:
                    bad = "the axis of %s is as long as axis %s of the data, over which the data are averaged" % (m, T.show(n[2]))
        rep.check(bad is None, "points", con, bad or "", p.loc, p)
    elif T.is_num(ax.num):
        rep.bad("points", con, "the axis of %s has %s points, whatever was measured" % (m, T.show(ax.num)), p.loc, p)
    else:
        rep.unk("points", con, "number of points %s not understood" % T.show(ax.num)[:80], p.loc)


# ------------------------------------------------------------------------------------------------- gates
def gate_label(t):
    """g of 'position_' + g"""
    if t[0] == "cat" and len(t) == 3 and t[1] == const("position_"):
        return settled(t[2])
    return None


def settled(t):
    """reads of options without the writes of other options"""
    if not isinstance(t, tuple):
        return t
    t = tuple(settled(x) for x in t)
    while t[:1] == ("item",) and len(t) == 3 and T.is_const(t[2]) and t[1][0] == "setitem" and T.is_const(t[1][2]) and owner(t[1]) is not None:
        if t[1][2] == t[2]:
            return t[1][3]
        t = ("item", t[1][1], t[2])
    return t


def swept(ax, k):
    """gates the scan of the axis is known to sweep"""
    res = set()
    g = written(ax.opts, "gate") if ax.opts is not None else None
    if g is not None:
        res.add(settled(g))
    c = ax.centre
    if c[0] == "item" and is_read(c[1]):
        res.add(settled(c[2]))
    return res


def default_gates(ctx, c):
    """{attribute: default}, default gates of the measurements the constructor builds (None: not known)"""
    init = ctx.prog.method(c, "__init__")
    import ast
    if init is None:
        return {}, None
    args = init.node.args
    names = [a.arg for a in args.args]
    dflt = dict(zip(names[len(names) - len(args.defaults):], args.defaults))

    def lit(n):
        try:
            return ast.literal_eval(n)
        except (ValueError, TypeError, SyntaxError):
            return None
    vals = {n: lit(d) for n, d in dflt.items()}
    attrs = {"parameters": vals.get("parameters")}
    for n in ast.walk(init.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            attrs[n.targets[0].attr] = vals.get(n.value.id)
    gates = None
    for n in ast.walk(init.node):
        it = None
        if isinstance(n, ast.For):
            it, tgt, body = n.iter, n.target, n.body
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp)) and len(n.generators) == 1:
            it, tgt, body = n.generators[0].iter, n.generators[0].target, [n.elt]
        if it is None or not isinstance(it, ast.Name) or not isinstance(tgt, ast.Name):
            continue
        for b in body:
            for call in ast.walk(b):
                if isinstance(call, ast.Call) and getattr(call.func, "id", getattr(call.func, "attr", None)) == "Measurement":
                    for kw in call.keywords:
                        if kw.arg == "gate" and isinstance(kw.value, ast.Name) and kw.value.id == tgt.id:
                            gates = vals.get(it.id)
    return attrs, gates


def check_gates(ctx, rep, con, c, p, v):
    es = entries(v)
    if not isinstance(es, dict):
        return
    declared = (p.i.export() or {}).get("parameters")
    for lab, val in es.items():
        g = gate_label(lab) if isinstance(lab, tuple) else None
        if g is None and lab == ("elem", declared) and axes_in_value(val):
            attrs, gates = default_gates(ctx, c)
            mine = attrs.get("parameters")
            if mine is not None and gates is not None:
                rep.check(list(mine) == ["position_" + x for x in gates], "gate", con, "the declared parameters are by default %s, the scans "
                          "are of %s" % (", ".join(mine), ", ".join(gates)), p.loc, p)
        if g is None:
            continue
        for ax in axes_in_value(val):
            sw = swept(ax, 0)
            if sw:
                rep.check(True if g in sw else (None if vague(g) or any(vague(s) for s in sw) else False), "gate", con,
                          "the position of %s is read off a scan of %s" % (T.show(g)[:60], ", ".join(T.show(s)[:60] for s in sw)), p.loc, p)
                continue
            if ax.meas is not None and option(g) is not None and option(g)[1] == "gate":
                rep.check(True if option(g)[0] == ax.meas else False, "gate", con, "the position is named after the gate of %s, but read off "
                          "the scan of %s" % (T.show(option(g)[0])[:50], T.show(ax.meas)[:50]), p.loc, p)
                continue
            if g[0] == "elem" and g[1][0] == "attr" and ax.meas is not None and ax.meas[0] in ("elem", "item"):
                attrs, gates = default_gates(ctx, c)
                mine = attrs.get(g[1][2])
                if mine is not None and gates is not None:
                    rep.check(list(mine) == list(gates), "gate", con, "the positions are named after %s, by default %s, but read off scans of %s"
                              % (T.show(g[1]), ", ".join(mine), ", ".join(gates)), p.loc, p)
                    continue
            rep.unk("gate", con, "the gate of the scan behind %s is not known" % T.show(val)[:80], p.loc)


def axes_in_value(t):
    """axes the value is read off"""
    if t[0] == "item":
        b = plain(t[1])
        if lin(b) is not None:
            return [Axis(b)]
    return []


# ------------------------------------------------------------------------------------------------- indices
def extremum(t):
    return t[0] == "fn" and t[1].split(".")[-1] in ("argmax", "argmin", "nanargmax", "nanargmin") and len(t[2]) >= 1


def slices(ix):
    if ix[0] == "tuple":
        return list(ix[1])
    if ix[0] == "fn" and ix[1] == "tuple":
        return list(ix[2][0][1]) if len(ix[2]) == 1 and ix[2][0][0] in ("tuple", "list") else list(ix[2])
    return [ix]


def bounds(s):
    """(start, stop, step) of a slice, or None"""
    if s[0] == "slice":
        return s[1:4]
    if s[0] == "fn" and s[1] == "slice":
        return tuple(s[2]) if len(s[2]) == 3 else None
    return None


def cut_start(a, k):
    """where the array begins that an extremum is looked for in (axis k of it), or None"""
    a = plain(a)
    while a[0] == "fn" and a[1].split(".")[-1] in ("abs", "absolute", "squeeze", "copy", "asarray") and len(a[2]) == 1:
        a = a[2][0]
    if a[0] != "item":
        return T.const(0)
    sl = slices(a[2])
    if k >= len(sl):
        return T.const(0) if all(bounds(s) for s in sl) else None
    if not all(bounds(s) for s in sl):
        return T.const(0) if not any(bounds(s) for s in sl) and k == 0 and len(sl) == 1 else None
    b = bounds(sl[k])
    if b[2] not in (NONE, const(1)):
        return None
    return const(0) if b[0] == NONE else b[0]


def found(t):
    """(extremum, axis) when t is the index of an extremum"""
    if extremum(t):
        return t, 0
    if t[0] == "item" and T.is_num(t[2]) and t[1][0] == "fn" and t[1][1].split(".")[-1] == "unravel_index" and extremum(t[1][2][0]):
        return t[1][2][0], int(t[2][1])
    if t[0] == "fn" and t[1] in ("int", "float") and len(t[2]) == 1:
        return found(t[2][0])
    return None


def shifted(t):
    """(extremum, axis, shift) of an index"""
    f = found(t)
    if f:
        return f + (const(0),)
    if t[0] == "poly":
        for mono, c in t[1]:
            if len(mono) == 1 and mono[0][1] == 1 and c == 1 and found(mono[0][0]):
                return found(mono[0][0]) + (T.sub(t, mono[0][0]),)
    return None


def check_index(rep, con, p, t):
    sh = shifted(t[2])
    if sh is None:
        return
    ext, k, shift = sh
    start = cut_start(ext[2][0], k)
    base = t[1]
    own = cut_start(base, 0) if base[0] == "item" and slices(base[2]) and bounds(slices(base[2])[0]) else const(0)
    if start is None or own is None:
        rep.unk("index", con, "the part %s is looked for in is not understood" % T.show(ext)[:80], p.loc)
        return
    want = T.sub(start, own)
    if shift == want:
        rep.ok("index", con)
        return
    rest = T.sub(shift, want)
    rep.check(None if vague(shift) or (T.contains(shift, want) and not T.is_num(want) and shift != want and not T.is_num(rest)) else False, "index", con,
              "the extremum is looked for from %s on, its index is moved by %s before it addresses %s"
              % (T.show(start)[:60], T.show(shift)[:60], T.show(base)[:60]), p.loc, p)


def late(rep, con, p, xs):
    """options of a measurement are written before it is made"""
    evs = [(e, e.args[0] if e.kind == "call" and e.name == "measure" and e.args else None) for e in p.events]
    used = [x for t in [p.ret] + [v for v in (xs,) if v is not None] for x in T.subterms(t)]
    for n, (e, _) in enumerate(evs):
        if e.kind not in ("mutate", "setitem") or e.recv is None or owner(e.recv) is None:
            continue
        m = owner(e.recv)
        if len(e.args) == 2 and T.is_const(e.args[0]) and written(e.recv, e.args[0][1]) == e.args[1]:
            continue                    # what it is already
        before, after = m in [x for _, x in evs[:n]], m in [x for _, x in evs[n:]]
        rep.check(True if not before or after or not any(x[0] == "setitem" and owner(x) == m for x in used) else None if vague(m) else False,
                  "late", con, "options of %s that the result is computed with are written after it was measured" % T.show(m)[:60], e.loc, p)


def c50(ctx):
    rep, prog = ctx.rep, ctx.prog
    op = set(f.name for f in helper_functions(prog))
    for c in sorted(evaluators(prog), key=lambda c: c.name):
        if prog.method(c, "evaluate") is None:
            continue
        con = c.name + ".evaluate"
        i, paths = ctx.run(c, "evaluate", opaque=op)
        if i is None:
            continue
        ex = i.export() or {}
        for p in paths:
            if p.kind != "ret":
                continue
            asked = [p.i.snap(p.st, e.args[0]) if e.args and e.args[0][0] == "ref" else e.args[0] for e in p.calls("measure") if e.args]
            xs = p.final(ex["raw_x_data"][2]) if ex.get("raw_x_data", ("",))[0] == "attr" else None
            ys = p.final(ex["raw_y_data"][2]) if ex.get("raw_y_data", ("",))[0] == "attr" else None
            done = set()
            late(rep, con, p, xs)
            if xs is not None and plain(xs)[0] in ("list", "tuple"):
                several = len(plain(xs)[1]) > 1
                counts = set(Axis(plain(x)).num for x in plain(xs)[1] if lin(plain(x)) is not None)
                if several and len(counts) == 1 and None not in counts:
                    n = counts.pop()
                    dims = any(x[0] == "fn" and x[1].split(".")[-1] == "shape" for x in T.subterms(n))
                    rep.check(not dims, "points", con, "all axes have as many points, %s, whatever the extents of the data"
                              % T.show(n)[:80], p.loc, p)
                for k, x in enumerate(plain(xs)[1]):
                    if lin(plain(x)) is not None:
                        check_axis(rep, con, p, Axis(plain(x)), k, several, asked)
                        done.add(plain(x))
            for t in (xs, p.ret):
                for ax in axes_of(t) if t is not None else ():
                    if ax.t not in done:
                        done.add(ax.t)
                        check_axis(rep, con, p, ax, 0, False, asked)
            if xs is not None and ys is not None and axes_of(xs):
                of = set(x[3][0] for x in T.subterms(ys) if x[0] == "mcall" and x[2] == "measure" and x[3])
                ms = set(a.meas for a in axes_of(xs)) - {None}
                if of and ms:
                    rep.check(True if of == ms else None if any(vague(x) for x in of | ms) else False, "recorded", con,
                              "the recorded data are those of %s, the recorded axis that of %s" %
                              (", ".join(sorted(T.show(x)[:50] for x in of)), ", ".join(sorted(T.show(x)[:50] for x in ms))), p.loc, p)
            for t in set(x for x in T.subterms(p.ret) if x[0] == "item"):
                check_index(rep, con, p, t)
            pr = pair(p.ret)
            if pr:
                check_gates(ctx, rep, con, c, p, pr[0])
    rep.need("axis", 6)
    rep.need("index", 2)


RULES = {
    "C50": (c50, "Abstract interpretation of evaluate of every evaluator class, its analysis followed into: the centre, reach and number "
            "of points of every axis as terms over the options of the measurement the data were asked for with (aliasing, options written "
            "before the measurement and loops over measurements tracked), the gate in a position's name against the gate swept, and the "
            "start of the part of an array an extremum is looked for in against the shift its index gets."),
}

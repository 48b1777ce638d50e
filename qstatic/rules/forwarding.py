"""C46: the forwarding solver moves each gate to the value measured for it."""
import itertools
from fractions import Fraction
from .common import *
from .. import terms as T
from ..terms import NONE
from ..labels import Labels, S, Ix, Undecided, Fails, show

CLS = "ForwardingSolver"
GATES = [("b", "a", "c"), ("a", "b", "c")]
POSITIONS = [("a", "b", "c"), ("c", "x", "a", "b"), ("b", "a"), ("c", "x"), ("x",), ("c",)]
VALUES = [("v1", "v2", "v3"), ("v3", "v1", "v2"), ("v2",), ("v3", "v2", "v1", "v4")]
MAPS = [(("v2", "a"), ("v1", "b"), ("v3", "c")), (("v1", "b"), ("v2", T.NAN), ("v3", "a")), (("v3", "c"), ("v9", "a"), ("v1", "b")),
        (("v2", "b"),), (("v9", "a"),), (("v2", T.NAN),)]
FACTORS = [("v1", "v2", "v3"), ("v2",), ("v9", "v3", "v1", "v2", "v4")]


def val(kind, l):
    return ("attr", ("param", kind), l)


def series(kind, labels):
    return S(labels, [val(kind, l) for l in labels])


def models():
    for g, pos, vs, m, f in itertools.product(GATES, POSITIONS, VALUES, MAPS, FACTORS):
        yield g, pos, vs, m, f


def expected(g, pos, vs, m, f):
    cur = {l: val("position", l) if l in pos else val("current", l) for l in g}
    nxt = {l: val("position", l) if l in pos else val("next", l) for l in g}
    for v, gate in m:
        if v in vs and gate != T.NAN:
            nxt[gate] = T.mul(val("values", v), val("factor", v)) if v in f else val("values", v)
    return cur, nxt


def word(g, pos, vs, m, f):
    return "gates %s, position of %s, values %s, mapping {%s}, rescaling factors of %s" % (
        ", ".join(g), ", ".join(pos), ", ".join(vs), ", ".join("%s: %s" % (a, "NaN" if b == T.NAN else b) for a, b in m), ", ".join(f))


def c46(ctx):
    rep = ctx.rep
    cls = ctx.prog.cls(CLS)
    i, paths = ctx.run(cls, "update_after_step", labels=True)
    ex = i.export() or {}
    CUR, NXT, V2P, TGT = (ex.get(n) for n in ("current_position", "next_position", "values_to_position", "target"))
    if None in (CUR, NXT, V2P, TGT):
        raise AnalysisBroken("the forwarding solver does not export its positions, mapping and target")
    names = {n: t[2] for n, t in (("cur", CUR), ("nxt", NXT)) if t[0] == "attr"}
    update(ctx, cls, paths, CUR, NXT, V2P, TGT, names)
    suggest(ctx, cls, NXT)
    construct(ctx, cls, names)
    rep.need("next-position", 1)
    rep.need("current-position", 1)
    rep.need("suggestion", 1)
    rep.need("start", 2)


def update(ctx, cls, paths, CUR, NXT, V2P, TGT, names):
    rep = ctx.rep
    ps = [p for p in paths if p.kind == "ret"]
    con = CLS + ".update_after_step"
    for p in paths:
        if p.kind == "raise":
            rep.unk("next-position", con, "raises on a path: %s" % p.describe()[:160])
    n = {"next-position": [0, 0], "current-position": [0, 0]}
    why = {}
    for mo in models():
        g, pos, vs, m, f = mo
        lb = Labels({CUR: series("current", g), NXT: series("next", g), ("param", "position"): series("position", pos),
                     ("param", "values"): series("values", vs), ("param", "variances"): series("variances", vs),
                     V2P: S([a for a, _ in m], [b if b == T.NAN else ("const", b) for _, b in m]),
                     ("item", TGT, ("const", "rescaling_factor")): series("factor", f),
                     ("attr", TGT, "rescaling_factor"): series("factor", f), ("attr", TGT, "index"): Ix(f)})
        cur, nxt = expected(*mo)
        for p in ps:
            h = lb.holds(p.facts)
            if h is False:
                continue
            for rule, attr, want in (("next-position", names["nxt"], nxt), ("current-position", names["cur"], cur)):
                n[rule][1] += 1
                t = p.final(attr)
                try:
                    got = lb.ev(t)
                except Undecided as e:
                    why[rule] = "not interpretable: %s" % str(e)[:160]
                    continue
                except Fails as e:
                    if h is None:
                        why[rule] = "branch not interpretable"
                        continue
                    rep.bad(rule, con, "%s with %s" % (e, word(*mo)), p.loc, p)
                    return
                if not isinstance(got, S):
                    why[rule] = "not a series"
                    continue
                if dict(zip(got.labels, got.vals)) == want and len(got.labels) == len(want):
                    if h is True:
                        n[rule][0] += 1
                        rep.ok(rule, con)
                    continue
                if h is None:
                    why[rule] = "branch not interpretable"
                    continue
                have = dict(zip(got.labels, got.vals))
                l = next((x for x in list(want) + list(have) if want.get(x) != have.get(x)), g[0])
                rep.bad(rule, con, "gate %s: %s is expected, it becomes %s; with %s" % (
                    l, show(want[l]) if l in want else "no entry", show(have[l]) if l in have else "missing", word(*mo)),
                    p.loc, p)
                return
    for rule, (ok, tried) in n.items():
        if rule in why:
            rep.unk(rule, con, why[rule])
        elif not ok:
            rep.unk(rule, con, "no model satisfies a path")


def suggest(ctx, cls, NXT):
    rep = ctx.rep
    _, paths = ctx.run(cls, "suggest_next_position", labels=True)
    for p in paths:
        con = CLS + ".suggest_next_position"
        if p.kind != "ret":
            rep.check(False, "suggestion", con, "raises instead of naming the next position", p.loc, p)
            continue
        rep.check(is_value(p, p.ret, NXT), "suggestion", con,
                  "the next position is expected, %s is returned" % T.show(p.ret)[:160], p.loc, p)


def construct(ctx, cls, names):
    rep = ctx.rep
    i, paths = ctx.run(cls, "__init__", labels=True)
    con = CLS + ".__init__"
    P = ("param", "current_position")
    Q = ("param", "next_position")
    for p in paths:
        if p.kind != "ret":
            continue
        missing = p.truth(T.is_none(Q))
        cur, nxt = p.final(names["cur"]), p.final(names["nxt"])
        rep.check(is_value(p, cur, P), "start", con, "the current position is expected to be the given one, it is %s" % T.show(cur)[:120],
                  p.loc, p)
        if missing is not False:
            rep.check(is_value(p, nxt, P) if missing else None, "start", con,
                      "without a next position it starts at the current one, it is %s" % T.show(nxt)[:120], p.loc, p)
            h = {n: r for (b, n), r in p.st.heap.items() if n in names.values()}
            if missing and len(h) == 2 and len(set(h.values())) == 1:
                rep.bad("start", con, "current and next position are one object: moving one moves the other", p.loc, p)
        if missing is not True:
            g, q = ("b", "a", "c"), ("x", "a", "c", "b")
            lb = Labels({P: series("current", g), Q: series("next", q)})
            try:
                got = lb.ev(nxt)
                ok = isinstance(got, S) and got.same(series("next", g))
            except Undecided:
                ok = None
            except Fails:
                ok = False
            rep.check(ok, "start", con, "a given next position is taken for the gates of the solver, it is %s" % T.show(nxt)[:120],
                      p.loc, p)


RULES = {
    "C46": (c46, "Final terms of the positions after an update, evaluated over an abstract domain of labelled series (label models: subsets, "
            "orders, missing and unmapped labels; symbolic values) and compared with the specified gate -> value mapping."),
}

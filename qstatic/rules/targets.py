"""C33: target tables."""
from .common import *
from ..terms import const, fn, TRUE, FALSE, NONE

COLUMNS = ("desired", "minimum", "maximum", "tolerance", "cost_threshold", "rescaling_factor")
NAMING = ("desired", "maximum", "minimum", "tolerance")


def entry(t):
    """(value, problem) of a column: the value it is filled with, if it is aligned by label"""
    while True:
        if t[0] == "item" and t[2][0] == "attr" and t[2][2] == "index":
            t = t[1]
        elif t[0] == "fn" and t[1] == "Series":
            kw = dict(t[3])
            t = kw.get("data", t[2][0] if t[2] else None)
            if t is None:
                return None, None
        elif t[0] == "fn" and t[1] in (".reindex", "copy", "deepcopy", ".astype", ".loc") and t[2]:
            t = t[2][0]
        elif t[0] == "fn" and t[1] in ("values", "asarray", "array", "list", ".to_numpy", "tolist"):
            return t[2][0] if t[2] else t, "position"
        else:
            return t, None


def make_target(ctx):
    rep = ctx.rep
    f = next((m.funcs["make_target"] for m in ctx.prog.modules.values() if "make_target" in m.funcs), None)
    if f is None:
        raise AnalysisBroken("make_target not found")
    i, paths = ctx.run_func(f)
    c0 = "make_target"
    ps = {n: ("param", n) for n in f.params()[0]}
    missing = [c for c in COLUMNS if c not in ps]
    if missing:
        raise AnalysisBroken("make_target has no argument %s" % missing)
    default_one = False
    for p in paths:
        kinds = {n: p.truth(("isinstance", ps[n], "Series")) for n in COLUMNS}
        unnamed = all(kinds[n] is False for n in NAMING)
        if p.kind == "raise":
            rep.check(True if unnamed else (None if any(kinds[n] is None for n in NAMING) and opaque_facts(p) else
                                            not any(kinds[n] for n in NAMING)), "refuses", c0,
                      "an error is raised although an argument names the parameters", p.loc, p)
            continue
        if unnamed and not any(kinds[n] for n in COLUMNS):
            rep.bad("refuses", c0, "a table is built although no argument names the parameters", p.loc, p)
            continue
        cols = columns(p.ret)
        if cols is None:
            rep.unk("columns", c0, "the table %s is not understood" % T.show(p.ret)[:200], p.loc)
            continue
        rep.check(set(cols) == set(COLUMNS), "columns", c0, "the table has the columns %s" % sorted(cols), p.loc, p)
        for k, t in cols.items():
            if k not in COLUMNS:
                continue
            v, how = entry(t)
            if v is None:
                rep.unk("aligned", c0 + "/" + k, "unknown", p.loc)
                continue
            src = ps[k]
            rep.check(how is None or kinds[k] is False, "aligned", c0 + "/" + k, "the column %s is not aligned by label: %s" % (
                k, T.show(t)), p.loc, p)
            if k == "rescaling_factor" and (v == const(1)):
                d = p.truth(fn("isna", src))
                rep.check(d is True or (None if opaque_facts(p) and d is None else False), "rescaling-default", c0,
                          "a given rescaling factor is replaced by one", p.loc, p)
                default_one = True
            elif k == "rescaling_factor" and v[0] == "fn" and v[1] == "fillna":
                rep.check(v[2] == (src, const(1)), "column-source", c0 + "/" + k, "the column is filled from %s" % T.show(v), p.loc, p)
                default_one = True
            else:
                rep.check(True if v == src else (None if vague(v) or (T.contains(v, src) and opaque(v)) else False),
                          "column-source", c0 + "/" + k, "the column %s is filled from %s" % (k, T.show(v)), p.loc, p)
                if k == "rescaling_factor" and kinds[k] is not True and p.truth(fn("isna", src)) is True:
                    rep.bad("rescaling-default", c0, "a missing rescaling factor is not replaced by one", p.loc, p)
    rep.check(default_one or None, "rescaling-default", c0, "a missing rescaling factor is never replaced by one")
    # defaults of the arguments: NaN (no limit)
    i2 = ctx.interp()
    for n in COLUMNS:
        d = default_of(ctx, f, n)
        if n == "rescaling_factor":
            ok = d in ("nan", "1", "None")
        else:
            ok = d == "nan"
        rep.check(True if ok else (None if d is None else False), "missing-limits", c0 + "/" + n,
                  "the default of %s is %s" % (n, d))


def default_of(ctx, f, name):
    import ast
    a = f.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
    if name not in d:
        return "(mandatory)"
    s = ast.unparse(d[name])
    if s in ("np.nan", "numpy.nan", "float('nan')", "math.nan", "pd.NA", "np.NaN", "nan"):
        return "nan"
    if s in ("1", "1.0", "1."):
        return "1"
    return s if isinstance(d[name], ast.Constant) else None


def opaque_facts(p):
    return any(vague(f.term) for f in p.facts)


def columns(t):
    if t[0] == "fn" and t[1] == "DataFrame":
        kw = dict(t[3])
        d = kw.get("data", t[2][0] if t[2] else None)
        if d is not None and d[0] == "dict" and all(T.is_str(k) and k[0] == "const" for k, _ in d[1]):
            cs = kw.get("columns")
            return {k[1]: v for k, v in d[1]}
    out = {}
    while t[0] == "setitem":
        if t[2][0] != "const":
            return None
        out.setdefault(t[2][1], t[3])
        t = t[1]
    if out:
        if t[0] == "fn" and t[1] == "DataFrame" and not dict(t[3]).get("data"):
            return out
        inner = columns(t)
        if inner is not None:
            inner.update(out)
            return inner
    return None


def changes_of(idx, val, ch):
    """the store table.loc[idx[0], idx[1]] = val assigns exactly the entries of one category"""
    if idx in (("elem", ch), ("key", ch), ("elem", fn("keys", ch)), ("elem", fn("list", ch))):
        return False        # the whole column
    if idx[0] != "tuple" or len(idx[1]) != 2:
        return None
    rows, col = idx[1]
    pairs = [(("elem", ch), ("item", ch, ("elem", ch))), (("key", ch), ("val", ch)), (("elem", ch), ("val", ch)),
             (("elem", fn("keys", ch)), ("item", ch, ("elem", fn("keys", ch)))), (("elem", fn("list", ch)), ("item", ch, ("elem", fn("list", ch))))]
    for c, s in pairs:
        if col == c:
            if val in (s, T.item(s, ("attr", s, "index")), fn("values", s), fn("copy", s)) and rows == ("attr", s, "index"):
                return True
            if T.contains(rows, ("attr", s, "index")) and T.contains(val, s):
                return None
            return False
    return None if vague(idx) or vague(val) else False


def setters(ctx):
    rep = ctx.rep
    for c in ctx.prog.subclasses("Solver"):
        f = ctx.prog.setter(c, "target")
        c0 = c.name + ".target"
        if f is None:
            rep.bad("target-settable", c0, "the target cannot be changed")
            continue
        try:
            i, paths = ctx.run(c, "target", "set")
        except AnalysisBroken:
            continue
        ex = i.export() or {}
        TG = ex.get("target") or i.initial("target")
        ch = ("param", params_of(f)[-1])
        for p in paths:
            if p.kind != "ret":
                continue
            muts = [e for e in p.events if e.kind == "mutate" and T.contains(e.recv, TG) and touches(e.recv, TG)]
            sets = [e for e in muts if e.name in ("setitem", "__setitem__", "loc")]
            stored = [e for e in stores(p)]
            if not sets:
                upd = [e for e in muts if e.name == "update"]
                if upd:
                    rep.bad("assigns-given", c0, "entries changed to NaN are skipped by update", upd[0].loc, p)
                else:
                    fin = (p.i.export(p.st) or {}).get("target")
                    rep.check(None if (fin is not None and (vague(fin) or opaque(fin)) and T.contains(fin, ch)) or opaque_facts(p)
                              else False, "assigns-given", c0, "the changes of a category are not assigned", p.loc, p)
                continue
            for e in sets:
                ok = changes_of(e.args[0], e.args[1], ch) if len(e.args) >= 2 else None
                rep.check(ok, "assigns-given", c0, "the assignment target[%s] = %s is not that of the given entries of one category" % (
                    T.show(e.args[0]), T.show(e.args[1]) if len(e.args) > 1 else "?"), e.loc, p)
                rep.check(bool(e.loops) or None, "every-category", c0, "only one category is changed", e.loc, p)
            lv = [e for e in p.events if e.kind == "leave" and e.name in ("break", "ret")]
            rep.check(not lv, "every-category", c0, "the remaining categories are skipped", lv[0].loc if lv else None, p)
            other = [e for e in muts if e not in sets]
            rep.check(not other, "nothing-else", c0, "the target is also changed by %s" % (other[0].name if other else ""),
                      other[0].loc if other else None, p)
    rep.need("assigns-given", 2)
    # from the tuners to their solvers
    for c in ctx.prog.subclasses("ParameterTuner"):
        f = ctx.prog.setter(c, "target")
        if f is None:
            rep.bad("forwarded", c.name + ".target", "the target of a group cannot be changed")
            continue
        i, paths = ctx.run(c, "target", "set")
        ch = ("param", params_of(f)[-1])
        SOL = (i.export() or {}).get("solver") or i.initial("solver")
        for p in paths:
            if p.kind != "ret":
                continue
            st = [e for e in p.events if e.kind == "store" and e.name == "target" and e.recv == SOL]
            ok = len(st) == 1 and st[0].args and st[0].args[0] == ch
            rep.check(True if ok else (None if st and vague(st[0].args[0]) else False), "forwarded", c.name + ".target",
                      "the changes are not handed to the solver", p.loc, p)
    # from the autotuner to its groups
    i, paths = ctx.run("Autotuner", "change_targets")
    f = ctx.prog.method(ctx.prog.cls("Autotuner"), "change_targets")
    tc = ("param", params_of(f)[-1])
    H = (i.export() or {}).get("tuning_hierarchy")
    for p in paths:
        if p.kind != "ret":
            continue
        st = [e for e in p.events if e.kind == "store" and e.name == "target"]
        if not st:
            rep.check(None if opaque_facts(p) else False, "ith-change", "Autotuner.change_targets", "no group receives its change", p.loc, p)
        for e in st:
            v = e.args[0] if e.args else NONE
            r = e.recv
            same = (r == ("elem", H) or (r[0] == "item" and r[1] == H)) and (v == ("elem", tc) or (v[0] == "item" and v[1] == tc))
            if same and "item" in (r[0], v[0]):
                idx = [x[2] if x[0] == "item" else None for x in (r, v)]
                same = idx[0] == idx[1] or ("index", H) in idx or ("index", tc) in idx
            rep.check(True if same else (None if vague(r) or vague(v) else False), "ith-change", "Autotuner.change_targets",
                      "%s.target receives %s" % (T.show(r), T.show(v)), e.loc, p)
        lv = [e for e in p.events if e.kind == "leave" and e.name in ("break", "ret")]
        rep.check(not lv, "ith-change", "Autotuner.change_targets", "the remaining changes are skipped", lv[0].loc if lv else None, p)
    rep.need("ith-change")


def params_of(f):
    return f.params()[0]


def touches(t, base):
    while t != base and t[0] in ("attr", "item", "elem", "val", "fn"):
        t = t[2][0] if t[0] == "fn" and t[2] else t[1]
        if not isinstance(t, tuple) or not t:
            return False
    return t == base


def c33(ctx):
    make_target(ctx)
    setters(ctx)


RULES = {
    "C33": (c33, "Provenance and alignment of every column of a target table on all paths; provenance of the stores made when "
                 "targets are changed (solver, tuner, autotuner)."),
}

"""C22: what evaluators return."""
from .common import *
from ..terms import const, fn, item, NONE, NAN
from .. import vocab

STATS = ("var", "nanvar", "std", "nanstd", ".var", ".std", "numpy.var", "numpy.nanvar")


def evaluators(prog):
    base = prog.cls("Evaluator")
    return [c for c in prog.classes.values() if base in prog.mro(c) and c is not base]


def is_fit(what):
    return "RuntimeError" if str(what).split(".")[-1] == "curve_fit" else False


def inner(t):
    """the labelled thing behind copies and scalings that keep the labels"""
    while True:
        if t[0] == "fn" and t[1] in ("copy", ".copy", "deepcopy", ".astype", "astype", "abs", "sqrt", "square") and t[2]:
            t = t[2][0]
        else:
            return t


def scaled(t):
    """(factor, thing) of a thing times a number"""
    if t[0] == "poly" and len(t[1]) == 1:
        mono, c = t[1][0]
        if len(mono) == 1 and mono[0][1] == 1:
            return const(c), mono[0][0]
    return None


def listing(t):
    """labels of an index term: a set of label terms"""
    t = inner(t)
    while t[0] == "fn" and t[1] in ("list", "tuple", "Index", "pandas.Index") and len(t[2]) == 1:
        t = t[2][0]
    if t[0] in ("list", "tuple"):
        return frozenset(t[1])
    if t[0] == "comp":
        return frozenset([t[2]]) if not t[4] else None
    return frozenset([("all", t)])


def labels(t):
    """the labels of a series term, or None"""
    t = inner(t)
    if scaled(t):
        return labels(scaled(t)[1])
    if t[0] == "fn" and t[1] == "Series":
        kw = dict(t[3])
        ix = kw.get("index", t[2][1] if len(t[2]) > 1 else None)
        if ix is not None and ix != NONE:
            return listing(ix)
        data = kw.get("data", t[2][0] if t[2] else None)
        if data is None or data == NONE:
            return frozenset()
        if data[0] == "dict":
            return frozenset(k for k, _ in data[1])
        return None
    if t[0] == "setitem":
        base = labels(t[1])
        if base is None:
            return None
        k = t[2]
        if k[0] == "elem" and ("all", k[1]) in base:
            return base
        if k[0] == "elem":
            return base | {("all", k[1])}
        return base | {k}
    if t[0] == "item" and t[2][0] == "list":
        return frozenset(t[2][1])
    if t[0] == "item" and t[2] in (const(0), const(1)) and t[1][0] == "mcall" and t[1][2] == "evaluate":
        return frozenset([("all", ("attr", t[1][1], "parameters"))])
    return None


def entries(t):
    """{label: value term} of a series term, or None"""
    t = inner(t)
    if scaled(t):
        c, x = scaled(t)
        e = entries(x)
        return {k: T.mul(c, v) for k, v in e.items()} if isinstance(e, dict) else e
    if t[0] == "fn" and t[1] == "Series":
        kw = dict(t[3])
        ix = kw.get("index", t[2][1] if len(t[2]) > 1 else None)
        data = kw.get("data", t[2][0] if t[2] else None)
        if ix is None or ix == NONE:
            if data is None:
                return {}
            return dict(data[1]) if data[0] == "dict" else None
        lab = listing(ix)
        if lab is None:
            return None
        names = list(inner(ix)[1]) if inner(ix)[0] in ("list", "tuple") else None
        if data is None or data == NONE or data == NAN:
            return {k: NAN for k in lab}
        if names is not None and data[0] in ("list", "tuple"):
            if len(names) != len(data[1]):
                return "length"
            return dict(zip(names, data[1]))
        if names is None and data[0] in ("list", "tuple"):
            return {("part", n): x for n, x in enumerate(data[1])}
        if names is not None:
            return {k: item(data, const(n)) for n, k in enumerate(names)}
        return {k: data for k in lab}
    if t[0] == "setitem":
        base = entries(t[1])
        if base is None or base == "length":
            return base
        k = t[2]
        k = ("all", k[1]) if k[0] == "elem" else k
        return {**base, k: t[3]}
    if t[0] == "item" and t[2][0] == "list":
        e = entries(t[1])
        return {k: e[k] for k in t[2][1]} if isinstance(e, dict) and set(t[2][1]) <= set(e) else \
            {k: item(t[1], k) for k in t[2][1]}
    return None


def is_nan(t):
    """the value is NaN whatever the data: True / False / None"""
    if t == NAN:
        return True
    h = t[0]
    if h == "const":
        return False
    if h == "poly":
        return True if any(is_nan(x) for x in T.subterms(t) if x[0] in ("item", "const") and x is not t) else None
    if h == "item":
        b = inner(t[1])
        if b[0] == "fn" and b[1] == "Series":
            data = dict(b[3]).get("data", b[2][0] if b[2] else None)
            if data is None:
                return True
            if data == NAN:
                return True
            if data[0] in ("list", "tuple"):
                e = entries(b)
                if isinstance(e, dict) and t[2] in e:
                    return is_nan(e[t[2]])
            return False if any(x[0] == "call" for x in T.subterms(data)) else None
        return False if touches_self(b) else None
    if h == "fn" and t[1] in ("abs", "sqrt", "square", "float") and t[2]:
        return is_nan(t[2][0])
    if h == "fn" and t[1].split(".")[-1] == "full" and len(t[2]) > 1:
        return is_nan(t[2][1])
    if h == "setitem":
        a, b = is_nan(t[1]), is_nan(t[3])
        return a if a == b else None
    if h == "fn":
        return None
    if h in ("attr", "elem", "mcall"):
        return False
    return None


def measured(t):
    return any(x[0] == "mcall" and x[2] in ("measure", "evaluate", "evaluate_error", "process_raw_data") for x in T.subterms(t))


def has_stat(t):
    return any(x[0] == "fn" and x[1].split(".")[-1] in ("var", "nanvar", "std", "nanstd") for x in T.subterms(t))


def shown(lab):
    def one(k):
        if k[0] == "all":
            return "every " + T.show(k[1])
        return T.show(k)[:60]
    return "{" + ", ".join(sorted(one(k) for k in lab)) + "}"


def fits(t):
    return [x for x in T.subterms(t) if x[0] == "call" and x[1].split(".")[-1] == "curve_fit"]


def pair(ret):
    if ret is not None and ret[0] in ("tuple", "list"):
        return ret[1] if len(ret[1]) == 2 else False
    return None


def returned(ctx):
    rep, prog = ctx.rep, ctx.prog
    for c in sorted(evaluators(prog), key=lambda c: c.name):
        if prog.method(c, "evaluate") is None:
            continue
        con = c.name + ".evaluate"
        own = prog.method(c, "evaluate")
        opaque = set(f.name for f in helper_functions(prog))
        i, paths = ctx.run(c, "evaluate", opaque=opaque, exc="all", exc_filter=is_fit)
        if i is None:
            continue
        rets = [p for p in paths if p.kind == "ret"]
        if not rets:
            if all(p.kind == "raise" for p in paths) and not any(p.calls("measure") for p in paths):
                continue                 # left open for subclasses
        seen = {}
        exported = i.export() or {}
        errs = [exported[n] for n in ("error", "reference_residual_sum") if n in exported]
        for p in paths:
            if any(f.val and f.term[0] == "isnone" and f.term[1][0] == "mcall" and f.term[1][2] == "measure" for f in p.facts) or \
                    any(p.truth(T.is_none(x.res)) for x in p.calls("measure") if x.res is not None):
                continue                 # an experiment returns data
            if p.kind == "raise":
                if _fit_raise(p):
                    rep.bad("no-convergence", con, "a fit that does not converge makes evaluate raise instead of giving NaN", p.loc, p)
                continue
            pr = pair(p.ret)
            if pr is None and labels(p.ret) is not None and p.ret[0] != "item":
                pr = False
            if pr is None:
                rep.unk("pair", con, "the returned %s is not understood" % T.show(p.ret)[:100], p.loc)
                continue
            if pr is False:
                rep.bad("pair", con, "evaluate does not return a pair but %s" % T.show(p.ret)[:100], p.loc, p)
                continue
            if NONE in pr or any(x[0] == "const" for x in pr):
                rep.bad("pair", con, "evaluate returns %s instead of a series" % T.show(p.ret)[:100], p.loc, p)
                continue
            v, e = pr
            torn = next((x for x in T.subterms(p.ret) if x[0] == "item" and (x[1] == NAN or T.is_num(x[1]))), None)
            if torn is not None:
                rep.bad("pair", con, "evaluate takes %s apart as if it were a collection" % T.show(torn[1]), p.loc, p)
                continue
            lv, le = labels(v), labels(e)
            if lv is None or le is None:
                rep.unk("labels", con, "labels of %s not understood" % T.show(v if lv is None else e)[:100], p.loc)
            else:
                same = lv == le
                rep.check(same if same or not any(vague(k) for k in lv ^ le if k[0] != "all") else None, "labels", con,
                          "values are labelled %s and variances %s" % (shown(lv), shown(le)), p.loc, p)
                seen.setdefault(lv, p)
            ev, ee = entries(v), entries(e)
            if ev == "length" or ee == "length":
                rep.bad("labels", con, "a returned series has not as many entries as labels", p.loc, p)
                continue
            if ev is None or ee is None:
                rep.unk("values", con, "entries not understood", p.loc)
                continue
            failed = any(x.kind == "handler" and x.extra == "RuntimeError" for x in p.events)
            if failed:
                for what, es in (("value", ev), ("variance", ee)):
                    for k, t in es.items():
                        rep.check(is_nan(t), "no-convergence", con, "after a fit that does not converge the %s of %s is %s, not NaN"
                                  % (what, T.show(k)[:60] if k[0] != "all" else "the parameters", T.show(t)[:100]), p.loc, p)
                continue
            for k in ev:
                if k not in ee:
                    continue
                a, b = ev[k], ee[k]
                nm = T.show(k)[:60] if k[0] not in ("all", "part") else "the parameters"
                ok = True if is_nan(a) else measured(a)
                rep.check(ok if ok or not (vague(a) or NAN in T.subterms(a)) else None, "measured", con,
                          "the value of %s, %s, does not come from the measurement" % (nm, T.show(a)[:80]), p.loc, p)
                bad = None
                if has_stat(a) and not has_stat(b):
                    bad = "the value of %s is a variance" % nm
                elif any(x in errs for x in T.subterms(a)) and not any(x in errs for x in T.subterms(b)):
                    bad = "the value of %s is computed from the configured error" % nm
                elif a != b and measured(b) and T.contains(a, b) and not T.contains(b, a) and b[0] not in ("mcall",):
                    bad = "the value of %s is derived from its variance" % nm
                for k2 in ev:
                    if k2 != k and k[0] != "part" and k2[0] != "part" and measured(ev[k2]) and b[0] == "poly" and T.contains(b, ev[k2]) \
                            and not T.contains(b, a) and T.contains(ee[k2] if k2 in ee else b, a):
                        bad = "the variance of %s is that of %s" % (nm, T.show(k2)[:60])
                    if k2 != k and "part" not in (k[0], k2[0]) and scaled(b) and measured(b) and scaled(b)[1] == ev[k2] and not T.contains(b, a):
                        bad = "the variance of %s is computed from the value of %s" % (nm, T.show(k2)[:60])
                rep.check(bad is None, "order", con, bad or "", p.loc, p)
            if c.name in ("AveragingEvaluator",):
                average(rep, con, i, p, ev, ee)
        lits = [(k, p) for k, p in seen.items()]
        for k, p in lits[1:]:
            rep.check(None if any(vague(x) for x in k ^ lits[0][0] if x[0] != "all") else False, "same-labels", con,
                      "one path labels its results %s, another %s" % (shown(lits[0][0]), shown(k)), p.loc, p)
        if lits:
            rep.ok("same-labels", con)
        declared(ctx, c, con, lits)
        fitted(ctx, c, con, paths)
    rep.need("labels", 10)
    rep.need("no-convergence", 4)


def _fit_raise(p):
    t = p.i.snap(p.st, p.val) if p.val is not None else None
    return t is not None and t[:2] == ("exc", "RuntimeError") and len(t) > 2


def functions(prog):
    return [f for m in prog.modules.values() for f in m.funcs.values()]


def helper_functions(prog):
    return [f for f in functions(prog) if f.name in vocab.METHODS or f.name.startswith("func_")]


def declared(ctx, c, con, lits):
    """constant labels are the parameters the constructor declares by default"""
    init = ctx.prog.method(c, "__init__")
    if init is None:
        return
    import ast
    a = init.node.args
    names = [x.arg for x in a.args]
    dv = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    dv.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    d = dv.get("parameters")
    if not isinstance(d, (ast.Tuple, ast.List)) or not all(isinstance(x, ast.Constant) for x in d.elts):
        return
    want = {x.value for x in d.elts}
    for lab, p in lits:
        got = {k[1] for k in lab if k[0] == "const"}
        rest = [k for k in lab if k[0] != "const"]
        if rest and any(k[0] == "all" for k in rest):
            continue
        ok = got <= want and (rest or got == want)
        ctx.rep.check(bool(ok), "declared", con, "the results are labelled %s, the constructor declares %s"
                      % (sorted(map(str, got)), sorted(map(str, want))), p.loc, p)


def fitted(ctx, c, con, paths):
    """series made from fitted parameters carry the names of the fit function's arguments, in their order"""
    rep, done = ctx.rep, set()
    for p in paths:
        terms = [x for e in p.events for x in ([e.res] if e.res else []) + list(e.args or ()) if isinstance(x, tuple)]
        if p.ret:
            terms.append(p.ret)
        calls = {}
        for t in terms:
            for x in T.subterms(t):
                if x[0] == "fn" and x[1] == "Series" and x not in done:
                    kw = dict(x[3])
                    data = kw.get("data", x[2][0] if x[2] else None)
                    ix = kw.get("index", x[2][1] if len(x[2]) > 1 else None)
                    if data is None or ix is None or inner(ix)[0] not in ("list", "tuple"):
                        continue
                    if data[0] == "item" and data[2] == const(0) and data[1][0] == "call" and \
                            data[1][1].split(".")[-1] == "curve_fit":
                        done.add(x)
                        f = dict(data[1][3]).get("f", data[1][2][0] if data[1][2] else None)
                        if f is None or f[0] != "gfunc":
                            rep.unk("fit-names", con, "fitted function not understood", p.loc)
                            continue
                        fu = next((g for g in functions(ctx.prog) if g.name == f[1].split(".")[-1]), None)
                        if fu is None:
                            continue
                        want = [q.arg for q in fu.node.args.args][1:]
                        got = [k[1] if k[0] == "const" else None for k in inner(ix)[1]]
                        rep.check(got == want if None not in got else None, "fit-names", con,
                                  "the fitted parameters of %s are labelled %s, its arguments are %s" % (fu.name, got, want), p.loc, p)


def average(rep, con, i, p, ev, ee):
    n = i.initial("n_measurement_repetitions")
    for k, a in ev.items():
        b = ee.get(k)
        if a[0] == "fn" and a[1].split(".")[-1] in ("nanmean", "mean", "nanmedian", "median", "sum", "nansum", "max", "min"):
            rep.check(a[1].split(".")[-1] == "nanmean", "average", con, "the value is %s of the repetitions" % a[1], p.loc, p)
            com = a[2][0]
            while com[0] == "fn" and com[1] in ("array", "asarray", "list", "tuple") and len(com[2]) == 1:
                com = com[2][0]
            full = com[0] == "comp" and any(x[0] == "range" and x[1:3] == (const(0), n) or x == ("range", n) for x in T.subterms(com))
            rep.check(True if full else None, "average", con, "not known to average over all repetitions", p.loc)
            var = fn("nanvar", a[2][0])
            if b is not None:
                cnt = any(x[0] == "fn" and x[1].split(".")[-1] in ("count_nonzero", "sum") for x in T.subterms(b))
                if any(x == var for x in T.subterms(b)):
                    rep.check(cnt and b != var, "average", con, "the variance is not that of the mean: %s" % T.show(b)[:100], p.loc, p)
                else:
                    plain = b[0] == "fn" and b[1].split(".")[-1] in ("var", "nanstd", "std") or \
                        any(x[0] == "fn" and x[1].split(".")[-1] in ("var", "std") for x in T.subterms(b))
                    rep.check(False if plain and not vague(b) else None, "average", con,
                              "the variance of the mean is %s" % T.show(b)[:100], p.loc, p)
        else:
            rep.unk("average", con, "value %s not understood" % T.show(a)[:100], p.loc)


RULES = {
    "C22": (returned, "Abstract interpretation of evaluate of every evaluator class (analysis function followed into), with "
            "every curve_fit call forked into success and RuntimeError: label sets of the two returned series as terms, NaN "
            "propagation to every returned entry on the failing paths, data dependence of values and variances on the "
            "measurement, fit parameter names against the fit function's argument list."),
}

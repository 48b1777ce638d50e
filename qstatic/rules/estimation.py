"""C37, C38: when and where the Kalman estimator asks for a measurement; pairing in the finite-difference gradient."""
from .common import *
from .. import terms as T
from ..terms import const, NONE

SL = ("slice", NONE, NONE, NONE)


def unwrap(t):
    """array(x), squeeze(x), list(x), x.values ... -> x"""
    while t is not None and t[0] == "fn" and t[1] in ("array", "asarray", "squeeze", "values", "list", "tuple", "float", ".astype",
                                                      "copy", "ravel", "numpy.ravel", ".ravel") and t[2]:
        t = t[2][0]
    return t


def monomials(t):
    return list(T.to_poly(t).items())


def comparison(term, measured):
    """(quantified, outer negation, relation, poly): [not] exists v: uncertainty(v) <relation> limit"""
    neg = inner = ex = False
    while term[0] == "not":
        neg, term = not neg, term[1]
    if term[0] == "fn" and term[1] == "any":
        ex, term = True, term[2][0]
    while term[0] == "comp" and not term[4]:
        term = term[2]
    while term[0] == "not":
        inner, term = not inner, term[1]
    if not ex:
        neg, inner = neg != inner, False
    if term[0] not in ("<0", "<=0"):
        return None
    poly, strict = term[1], term[0] == "<0"
    if inner:
        poly, strict = T.neg(poly), not strict
    signs = {q > 0 for m, q in monomials(poly) if any(measured(a) for a, e in m)}
    if len(signs) != 1:
        return None
    return ex, neg, ("smaller" if signs.pop() else "larger") + ("" if strict else " or equal"), poly


def single(t, measured):
    """a scalar comparison that looks at one fixed direction only"""
    for x in T.subterms(t):
        if x[0] == "item" and T.is_num(x[2]) and measured(x[1]) and x[1][0] != "fn":
            continue
        if x[0] == "item" and T.is_num(x[2]) and measured(x[1]) and x[1][1] == "norm":
            return True
    return False


class Kalman:
    def __init__(self, ctx, cls="KalmanGradientEstimator"):
        self.ctx, self.cls = ctx, ctx.prog.cls(cls)
        self.i, self.paths = ctx.run(self.cls, "require_measurement")
        ex = self.i.export() or {}
        miss = [k for k in ("kalman_gradient", "current_position", "maximum_covariance", "epsilon") if ex.get(k) is None]
        if miss:
            raise AnalysisBroken("%s exports no %s" % (cls, ", ".join(miss)))
        self.before = ex
        self.K, self.P, self.MC, self.EPS = (ex[k] for k in ("kalman_gradient", "current_position", "maximum_covariance", "epsilon"))
        self.COV = ("attr", self.K, "cov")
        self.labels = T.index_of(self.P)
        f = ctx.prog.method(self.cls, "require_measurement")
        self.gates, self.jac = [("param", x) for x in f.params()[0][1:3]]

    def cov_in(self, t):
        return T.contains(t, self.COV) or any(x[0] == "call" and x[1].endswith("covariance") or
                                              x[0] == "mcall" and x[2] == "covariance" for x in T.subterms(t))


def unrestricted(t, atom, wrap, labels):
    """does `atom` occur outside of wrap(atom)[labels]?"""
    def rec(x):
        if not isinstance(x, tuple):
            return False
        if x == atom:
            return True
        if x[:1] == ("item",) and len(x) == 3 and x[2] in labels and T.contains(x[1], atom) and wrap(x[1]):
            return False
        return any(rec(y) for y in x if isinstance(y, tuple))
    return rec(t)


def c37(ctx):
    rep = ctx.rep
    k = Kalman(ctx)
    c0 = k.cls.name + ".require_measurement"
    for p in k.paths:
        now = p.i.export(p.st) or {}
        changed = sorted(x for x in k.before if now.get(x) != k.before[x])
        st = [e for e in stores(p)]
        rep.check(not changed, "asking-is-free", c0, "asking for a measurement changes %s" % ", ".join(changed),
                  st[0].loc if st else p.loc, p)
        if p.kind != "ret":
            if p.kind == "raise":
                rep.check(None, "asking-is-free", c0 + "/raise", "raises", p.loc)
            continue
        none = is_value(p, p.ret, NONE)
        if none is None:
            rep.unk("asked-iff-uncertain", c0, "the returned value %s is not interpretable" % T.show(p.ret)[:200], p.loc)
            continue
        tuned = p.truth(T.is_none(k.jac))
        given = p.truth(T.is_none(k.gates))
        cons = c0 + ("/free" if tuned else "/tuned" if tuned is False else "")
        tests = [(f, comparison(f.term, k.cov_in)) for f in p.facts if k.cov_in(f.term)]
        if not tests:
            if any(vague(f.term) for f in p.facts):
                rep.unk("asked-iff-uncertain", cons, "the condition is not interpretable", p.loc)
            else:
                rep.bad("asked-iff-uncertain", cons, "%s without looking at the covariance" %
                        ("no measurement is requested" if none else "a measurement is requested"), p.loc, p)
            continue
        f, c = tests[-1]
        if c is None:
            rep.unk("asked-iff-uncertain", cons, "the condition %s is not a comparison" % T.show(f.term)[:200], p.loc)
            continue
        ex, ng, rel, poly = c
        holds = f.val != ng
        meas = [(m, q) for m, q in monomials(poly) if any(k.cov_in(a) for a, e in m)]
        # asked exactly if some direction is larger (strictly)
        if rel == "larger":
            ok = holds == (not none)
        elif rel == "smaller or equal" and not ex:
            ok = holds == bool(none)
        else:
            ok = False
        if ok and not ex and single(poly, k.cov_in):
            ok = False
        rep.check(ok, "asked-iff-uncertain", cons, "%s although the test '%s' is %s" % (
            "no measurement is requested" if none else "a measurement is requested", T.show(f.term)[:160], f.val), p.loc, p)
        rep.check(True if T.contains(poly, k.MC) else wrong(poly), "own-limit", cons,
                  "the uncertainty is not compared with the maximum covariance", p.loc, p)
        bad = misformed(k, poly)
        rep.check(bad is None, "uncertainty-form", cons, bad, p.loc, p)
        if tuned and given is False:
            lab = [k.gates, ("tuple", (k.gates, k.gates))]
            isframe = lambda x: True
            both = lambda x: x[0] == "item" and x[2] in lab
            other = any(x[0] in ("fn", "call", "mcall") and x[1] not in ("norm", "any", "max") and
                        len(x) > 3 and any(T.contains(y, k.COV) for y in x[2:] if isinstance(y, tuple)) and
                        any(y == k.gates or (isinstance(y, tuple) and len(y) == 2 and y[1] == k.gates)
                            for z in x[2:] if isinstance(z, tuple) for y in z) for x in T.subterms(poly)) or \
                any(x[0] == "item" and x[2][0] != "tuple" and x[2] not in lab and T.contains(x[1], k.COV) and T.contains(x[2], k.gates)
                    for x in T.subterms(poly))
            rep.check(not unrestricted(poly, k.COV, both, lab) or (None if vague(poly) or other else False), "only-given-gates",
                      cons + "/covariance", "the covariance is not restricted to the given gates", p.loc, p)
            rep.check(not unrestricted(poly, k.MC, isframe, lab) or (None if vague(poly) else False), "only-given-gates",
                      cons + "/limit", "the maximum covariance is not taken for the given gates", p.loc, p)
        if none:
            continue
        measure = [T.from_poly({m: abs(q)}) for m, q in meas]
        request(rep, k, p, cons, measure, tuned, given)
    rep.need("asked-iff-uncertain", 4)
    rep.need("own-limit", 4)
    rep.need("uncertainty-form", 4)
    rep.need("only-given-gates", 3)
    rep.need("largest", 2)
    rep.need("step", 2)
    reported(ctx, k)


def misformed(k, poly):
    """the uncertainty along a direction: v' cov v, or the length of eigenvalue times eigenvector over the maximum"""
    for x in T.subterms(poly):
        if x[0] != "poly":
            continue
        for m, _ in x[1]:
            cov = [(a, e) for a, e in m if a == k.COV or a[0] == "item" and k.cov_in(a) and any(
                y[0] == "item" and y[1][0] == "fn" and "eig" in y[1][1] for y in T.subterms(a))]
            if not cov:
                continue
            lim = [(a, e) for a, e in m if T.contains(a, k.MC) and not k.cov_in(a)]
            if any(e > 0 for a, e in lim):
                return "the uncertainty is multiplied by the maximum covariance"
            if any(e < 0 for a, e in cov):
                return "the uncertainty is divided by the covariance or its eigenvectors"
            if all(a == k.COV for a, e in cov):
                vec = [(a, e) for a, e in m if T.contains(a, k.jac) and not k.cov_in(a)]
                if any(e < 0 for a, e in vec):
                    return "the covariance is divided by the direction"
                if vec and sum(e for a, e in vec) == 1 and len(m) == 1 + len(vec):
                    return "the covariance is multiplied by the direction on one side only"
    return None


def request(rep, k, p, cons, measure, tuned, given):
    r = p.ret
    base = step = None
    if r[0] == "fn" and r[1] == "addfill":
        base, step = r[2][:2]
        if base != k.P and step == k.P:
            base, step = step, base
    elif r[0] == "poly":
        step = T.sub(r, k.P)
        base = k.P
        if T.contains(step, k.P) and not any(k.P in T.subterms(a) and a != k.P for m, q in monomials(step) for a, e in m):
            sub = T.item(k.P, k.gates)
            step = T.sub(r, sub)
            base = sub
    if step is None:
        rep.check(None if vague(r) else False, "step", cons, "the request %s is not a step from the current position" % T.show(r)[:200], p.loc, p)
        return
    bases = [k.P, T.item(k.P, k.gates)]
    rep.check(True if base in bases else (None if vague(base) else False), "step", cons + "/base",
              "the step starts at %s, not at the current position" % T.show(base)[:200], p.loc, p)
    ms = monomials(step)
    if len(ms) != 1:
        rep.check(None if vague(step) else False, "step", cons, "the step %s is not epsilon times a direction" % T.show(step)[:200], p.loc, p)
        return
    m, q = ms[0]
    eps = [(a, e) for a, e in m if T.contains(a, k.EPS)]
    dirs = [(a, e) for a, e in m if not T.contains(a, k.EPS)]
    ok = abs(q) == 1 and len(eps) == 1 and eps[0][1] == 1 and len(dirs) == 1 and dirs[0][1] == 1
    rep.check(ok or (None if vague(step) else False), "step", cons, "the step is %s instead of epsilon times one direction" %
              T.show(step)[:200], p.loc, p)
    if not ok:
        return
    e = eps[0][0]
    if tuned and given is False:
        rep.check(True if e == T.item(k.EPS, k.gates) else (None if vague(e) else False), "only-given-gates", cons + "/epsilon",
                  "the step width is not taken for the given gates but is %s" % T.show(e)[:160], p.loc, p)
    d = unwrap(dirs[0][0])
    sel = [x for x in T.subterms(d) if x[0] == "fn" and x[1] in ("argmax", "argmin", "nanargmax", "numpy.nanargmax")]
    if not sel:
        wanted = any(x[0] == "fn" and x[1] in ("argsort", "max", ".max", "sorted") for x in T.subterms(d)) or vague(d)
        rep.check(None if wanted else False, "largest", cons, "the direction %s is not chosen by its uncertainty" %
                  T.show(d)[:200], p.loc, p)
        return
    x = sel[0]
    if x[1] == "argmin":
        rep.bad("largest", cons, "the direction with the smallest uncertainty is chosen", p.loc, p)
        return
    by = unwrap(x[2][0])
    atoms = [unwrap(strip_max(a)) for mm in measure for (m2, q2) in monomials(mm) for a, ee in m2 if k.cov_in(a)]
    whole = [unwrap(mm) for mm in measure]
    same = by in atoms or by in whole
    if not same:
        # a constant factor or a monotone function does not change which one is the largest
        mono = [a for a in atoms + whole if monotone(a, by) or monotone(by, a)]
        same = None if vague(by) or mono or by[0] in ("call", "mcall", "poly") else False
    rep.check(same, "largest", cons, "the direction is chosen by %s, not by the uncertainty that was compared" % T.show(by)[:200], p.loc, p)
    # which vector: column of the eigenvectors / the matching null vector
    if tuned:
        if d[0] == "item" and d[2][0] == "tuple" and len(d[2][1]) == 2:
            a, b = d[2][1]
            mat = d[1]
        elif d[0] == "item" and d[1][0] == "fn" and d[1][1] == "T":
            mat, a, b = d[1][2][0], SL, d[2]
        else:
            mat = a = b = None
        eig = [y for y in T.subterms(d) if y[0] == "fn" and y[1].split(".")[-1] in ("eigh", "eig")]
        if mat is None or not eig:
            rep.check(None, "column", cons, "the direction is not a column of the eigenvectors", p.loc)
            return
        E = eig[0]
        rep.check(mat == ("item", E, const(1)) or (None if vague(mat) or not T.contains(mat, E) else False), "column", cons,
                  "the direction is taken from %s" % T.show(mat)[:120], p.loc, p)
        rep.check(True if (a == SL and b == x) else (False if (b == SL and a == x) else None), "column", cons + "/axis",
                  "a row of the eigenvectors is used instead of a column", p.loc, p)
        comp = [y for y in T.subterms(E[2][0]) if y == k.COV]
        rep.check(True if comp else (None if k.cov_in(E) else False), "column", cons + "/matrix",
                  "the directions are not those of the covariance", p.loc, p)
    else:
        src = [y for y in T.subterms(d) if y[0] == "fn" and y[1] == ".nullspace"]
        rep.check(bool(src) or (None if vague(d) else False), "keeps-tuned", cons, "the direction is not taken from the directions "
                  "that keep the tuned parameters", p.loc, p)
        for y in src:
            rep.check(True if T.contains(y, k.jac) else (None if vague(y) else False), "keeps-tuned", cons + "/jacobian",
                      "the directions do not come from the jacobian of the tuned parameters", p.loc, p)


def monotone(a, b):
    """a is sqrt/abs/square ... of b"""
    while a != b:
        if a[0] == "fn" and a[1].split(".")[-1] in ("sqrt", "abs", "log", "exp", "square") and len(a[2]) == 1:
            a = unwrap(a[2][0])
        else:
            return False
    return True


def strip_max(a):
    while a[0] == "fn" and a[1] in ("max", ".max", "amax", "nanmax") and a[2]:
        a = a[2][0]
    return a


def wrong(t):
    return None if vague(t) else False


def reported(ctx, k):
    """estimate and covariance are those of the filter, labelled by the gates"""
    rep = ctx.rep
    for name, attr in (("estimate", "grad"), ("covariance", "cov")):
        i, paths = ctx.run(k.cls, name)
        c = "%s.%s" % (k.cls.name, name)
        for p in paths:
            if p.kind != "ret":
                continue
            r = p.ret
            if r[0] != "fn" or r[1] not in ("Series", "DataFrame"):
                rep.check(None if vague(r) else False, "reported", c, "returns %s" % T.show(r)[:200], p.loc, p)
                continue
            kw = dict(r[3])
            data = kw.get("data", r[2][0] if r[2] else NONE)
            want = ("attr", k.K, attr)
            rep.check(True if unwrap(data) == want else wrong(data), "reported", c, "reports %s instead of the filter's %s" %
                      (T.show(data)[:160], attr), p.loc, p)
            for lab in (("index",) if attr == "grad" else ("index", "columns")):
                got = kw.get(lab, NONE)
                rep.check(True if got == k.labels else wrong(got), "reported", c + "/" + lab, "the %s is labelled by %s" %
                          (name, T.show(got)[:160]), p.loc, p)
    rep.need("reported", 5)
    c = "KalmanGradient"
    cls = ctx.prog.cls(c)
    for g, attr in (("grad", "x"), ("cov", "P")):
        i, paths = ctx.run(cls, g, "get")
        want = ("attr", i.initial("filter"), attr)
        for p in paths:
            if p.kind != "ret":
                continue
            rep.check(True if T.contains(p.ret, want) else wrong(p.ret), "filter-state", "%s.%s" % (c, g),
                      "returns %s instead of the filter's %s" % (T.show(p.ret)[:160], attr), p.loc, p)
    i, paths = ctx.run(cls, "__init__")
    inits = {"F": "state_transition_function", "x": "initial_gradient", "P": "initial_covariance_matrix",
             "R": "measurement_covariance_matrix", "Q": "process_noise", "alpha": "alpha"}
    for p in paths:
        if p.kind != "ret":
            continue
        sets = {}
        for e in p.events:
            if e.kind == "store" and e.name in inits:
                sets[e.name] = e
        for a, par in inits.items():
            given = True if a == "alpha" else p.truth(T.not_(T.is_none(("param", par))))
            con = "%s.__init__/%s" % (c, a)
            v = sets[a].args[0] if a in sets and sets[a].args else None
            if given is True:
                rep.check(True if v is not None and T.contains(v, ("param", par)) and not any(
                    T.contains(v, ("param", o)) for o in inits.values() if o != par) else
                    (False if v is None else wrong(v)), "filter-start", con, "the filter's %s is %s instead of %s" %
                    (a, T.show(v or NONE)[:120], par), sets[a].loc if a in sets else p.loc, p)
            elif given is False and v is not None:
                rep.check(True if not any(T.contains(v, ("param", o)) for o in inits.values()) else wrong(v), "filter-start", con,
                          "the filter's %s becomes %s although %s is not given" % (a, T.show(v)[:120], par), sets[a].loc, p)
    rep.need("filter-start", 6)


# -- C38 -----------------------------------------------------------------------------------------------------------
class Family:
    """entries base[start + step*j] of a measured sequence, one per row j"""
    def __init__(self, terms):
        self.terms = terms                     # [(coef, base, start, step, stop)]


def family(t, bases):
    """decode stack(x[a::s]) - stack(x[b::t]) into its pieces; None when not interpretable"""
    out = []
    for m, q in monomials(t):
        if len(m) != 1 or m[0][1] != 1 or q not in (1, -1):
            return None
        a = m[0][0]
        while a[0] == "fn" and a[1] in ("numpy.stack", "stack", "array", "asarray", "numpy.vstack", "vstack", "numpy.concatenate",
                                        "list", "tuple", "numpy.squeeze") and a[2]:
            a = a[2][0]
        if a[0] == "item" and a[2] == ("tuple", (("glob", "numpy.newaxis"), SL)):
            a = a[1]
        if a[0] != "item":
            return None
        b = a[1]
        while b[0] == "fn" and b[1] in ("numpy.stack", "array", "asarray", "list", "tuple") and b[2]:
            b = b[2][0]
        if b not in bases:
            return None
        ix = a[2]
        if T.is_num(ix):
            out.append((int(q), b, int(ix[1]), 0))
        elif ix[0] == "slice" and not vague(ix):
            lo, hi, st = ix[1:]
            plain = lambda x, d: d if x == NONE else int(x[1]) if T.is_num(x) else x
            step = plain(st, 1)
            out.append((int(q), b, plain(lo, 0), step if hi == NONE else (step, plain(hi, None))))
        else:
            return None
    return sorted(out, key=lambda x: (repr(x[2]), repr(x[3])))


def comp_family(t, bases):
    """[b[i+1] - b[i] ...] written as comprehension over zipped slices"""
    if t[0] == "fn" and t[1] in ("numpy.stack", "array", "asarray") and t[2]:
        t = t[2][0]
    if t[0] != "comp" or t[4]:
        return None
    elt = t[2]
    out = {}
    for m, q in monomials(elt):
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = m[0][0]
        if a[0] == "elem":
            out[("fn", "numpy.stack", (a[1],), ())] = q
        elif a[0] == "item" and a[1] in bases:
            out[a] = q
        else:
            return None
    return family(T.from_poly({((k, 1),): v for k, v in out.items()}), bases)


class Factor:
    def __init__(self, base, inv=False, tr=False):
        self.base, self.inv, self.tr = base, inv, tr

    def key(self):
        return (self.base, self.inv, self.tr)


def product(t, bases):
    """matrix expression -> list of factors (family, inverse, transposed)"""
    if t[0] == "fn":
        n = t[1].split(".")[-1]
        if n in ("matmul", "dot") and len(t[2]) == 2:
            a, b = product(t[2][0], bases), product(t[2][1], bases)
            return None if a is None or b is None else a + b
        if n in ("T", "transpose") and len(t[2]) == 1:
            a = product(t[2][0], bases)
            return None if a is None else [Factor(x.base, x.inv, not x.tr) for x in reversed(a)]
        if n == "inv" and len(t[2]) == 1:
            a = product(t[2][0], bases)
            return None if a is None else [Factor(x.base, not x.inv, x.tr) for x in reversed(a)]
        if n == "solve" and len(t[2]) == 2:
            a, b = product(t[2][0], bases), product(t[2][1], bases)
            return None if a is None or b is None else [Factor(x.base, not x.inv, x.tr) for x in reversed(a)] + b
        if n in ("diag", "diagflat") and len(t[2]) == 1:
            f = family(unvec(t[2][0]), bases) or comp_family(t[2][0], bases)
            return None if f is None else [Factor(("diag", tuple(f)))]
        if n in ("stack", "array", "asarray"):
            f = family(t, bases) or comp_family(t, bases)
            return None if f is None else [Factor(("rows", tuple(f)))]
        if n in ("squeeze", "ravel", "values"):
            return product(t[2][0], bases)
    if t[0] == "attr" and t[2] == "T":
        return product(("fn", "T", (t[1],), ()), bases)
    f = family(t, bases)
    if f is None:
        f = comp_family(t, bases)
    return None if f is None else [Factor(("rows", tuple(f)))]


def unvec(t):
    return t[2][0] if t[0] == "fn" and t[1] == "squeeze" else t


def shape_of(fam):
    return tuple((c, s, st) for c, b, s, st in fam)


def c38(ctx):
    rep = ctx.rep
    seen = 0
    for name in ("calculate_gradient_non_orthogonal", "gradient_min_evaluations"):
        fs = [f for f in ctx.prog.all_funcs() if f.qual == name]
        if not fs:
            if name == "calculate_gradient_non_orthogonal":
                raise AnalysisBroken("%s not found" % name)
            continue
        f = fs[0]
        ps = [("param", x) for x in f.params()[0]]
        if name == "calculate_gradient_non_orthogonal":
            pos, val, var = ps[:3]
        else:
            val, pos = ps[:2]
            var = None
        i, paths = ctx.run_func(f)
        for p in paths:
            if p.kind != "ret":
                continue
            seen += 1
            gradient(rep, name, p, pos, val, var)
    rep.need("pairs", 4)
    rep.need("all-used", 4)
    rep.need("covariance", 2)
    rep.need("formula", 4)


def gradient(rep, name, p, pos, val, var):
    r = p.ret
    g, cov = r, None
    want_cov = var is not None and p.truth(var)
    if r[0] == "tuple" and len(r[1]) == 2:
        g, cov = r[1]
    if var is not None:
        given = want_cov
        if given is None:
            given = p.truth(T.not_(T.is_none(var)))
        if given is not None:
            rep.check(given == (cov is not None), "covariance", name + "/given", "a covariance is %sreturned although the variances "
                      "are %sgiven" % ("" if cov is not None else "not ", "" if given else "not "), p.loc, p)
    bases = [pos, val] + ([var] if var is not None else [])
    fs = product(g, bases)
    if fs is None:
        rep.check(None, "formula", name, "the gradient %s is not interpretable" % T.show(g)[:300], p.loc)
        return
    P = [x for x in fs if x.base[0] == "rows" and all(b == pos for c, b, s, st in x.base[1])]
    V = [x for x in fs if x.base[0] == "rows" and all(b == val for c, b, s, st in x.base[1])]
    if len(fs) != 2 or len(P) != 1 or len(V) != 1:
        rep.bad("formula", name, "the gradient is not a product of displacements and differences of values: %s" % T.show(g)[:200], p.loc, p)
        return
    P, V = P[0], V[0]
    fp, fv = P.base[1], V.base[1]
    neg = tuple((-c, s, st) for c, s, st in shape_of(fv))
    same = shape_of(fp) == shape_of(fv)
    rep.check(same, "pairs", name, "displacements pair the measurements %s, differences of the values pair %s" %
              (show_pairs(fp), show_pairs(fv)), p.loc, p)
    well = len(fp) == 2 and fp[0][0] == -fp[1][0]
    rep.check(well, "pairs", name + "/differences", "the displacements are not differences of two measurements: %s" % show_pairs(fp), p.loc, p)
    # all measurements are used: fixed one and the rest, or the even and the odd ones
    shp = sorted(((s, st) for c, s, st in shape_of(fp)), key=repr)
    n1 = count_fact(p, pos, val)
    if n1 == "base":
        rep.check(shp in ([(0, 0), (1, 1)], [(-1, 0), (0, (1, -1))]), "all-used", name + "/base", "with one more measurement than gates the pairs are %s" %
                  show_pairs(fp), p.loc, p)
    elif n1 == "twice":
        rep.check(shp == [(0, 2), (1, 2)], "all-used", name + "/pairs", "with two measurements per gate the pairs are %s" %
                  show_pairs(fp), p.loc, p)
    else:
        counted = any(any(T.contains(f.term, ("fn", "len", (b,), ())) for b in (val, pos)) and T.contains(f.term, ("item", pos, const(0)))
                      for f in p.facts)
        rep.check(None if counted or any(vague(f.term) for f in p.facts) else False, "all-used", name,
                  "a gradient is computed without comparing the number of measurements with the number of gates", p.loc, p)
    # V (vector) P^-T  or P^-1 V
    if fs[0] is V:
        okf = P.inv and P.tr
    else:
        okf = P.inv and not P.tr
    if name == "gradient_min_evaluations":
        okf = okf and (V.tr if fs[0] is V else not V.tr)
    rep.check(okf, "formula", name, "the displacements enter %s" % ("transposed the wrong way" if P.inv else "without being inverted"), p.loc, p)
    if cov is None:
        return
    cs = product(cov, bases)
    if cs is None:
        rep.check(None, "covariance", name, "the covariance %s is not interpretable" % T.show(cov)[:300], p.loc)
        return
    ok = len(cs) == 3 and cs[0].base == P.base and cs[2].base == P.base and cs[0].inv and cs[2].inv and not cs[0].tr and cs[2].tr \
        and cs[1].base[0] == "diag" and not cs[1].inv
    rep.check(ok, "covariance", name, "the covariance is not inverse displacements times variances times their transpose: %s" %
              T.show(cov)[:200], p.loc, p)
    d = [x for x in cs if x.base[0] == "diag"]
    if d:
        fd = d[0].base[1]
        okv = all(b == var for c, b, s, st in fd) and [(s, st) for c, b, s, st in fd] == [(s, st) for c, b, s, st in fp]
        rep.check(okv, "variance-pairs", name, "the variances pair %s, the displacements %s" % (show_pairs(fd), show_pairs(fp)), p.loc, p)
        rep.check(all(c == 1 for c, b, s, st in fd), "variance-pairs", name + "/sum", "variances of a difference are not added", p.loc, p)


def show_pairs(fam):
    w = lambda x: T.show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else \
        ":".join(w(y) for y in x) if isinstance(x, tuple) else str(x)
    return " ".join("%s[%s%s]" % ("+" if c > 0 else "-", w(s), " step %s" % w(st) if st else "") for c, b, s, st in fam)


def count_fact(p, pos, val):
    """which of the two supported numbers of measurements the path assumes"""
    n = ("fn", "len", (val,), ())
    n2 = ("fn", "len", (pos,), ())
    d = ("fn", "len", (("item", pos, const(0)),), ())
    for f in p.facts:
        t, v = f.term, f.val
        while t[0] == "not":
            t, v = t[1], not v
        if t[0] == "==0" and v:
            q = dict(T.to_poly(t[1]))
            q = {m: c for m, c in q.items()}
            for nn in (n, n2):
                a, b, c = q.get(((nn, 1),), 0), q.get(((d, 1),), 0), q.get((), 0)
                if a and b and len(q) <= 3:
                    if -b / a == 1 and -c / a == 1:
                        return "base"
                    if -b / a == 2 and c == 0:
                        return "twice"
    return None


RULES = {
    "C37": (c37, "KalmanGradientEstimator.require_measurement is evaluated symbolically on every path: a measurement is requested exactly on the paths on which the uncertainty of some direction is larger than the maximum covariance, the request is the current position plus epsilon times the direction with the largest compared uncertainty (restricted to the given gates, or to directions that keep the tuned parameters), and nothing is changed; estimate, covariance and the filter's start values come from the filter / their own argument."),
    "C38": (c38, "The matrix expressions of the finite-difference gradient are decoded into index families of the measurements (start + step*j) and lists of factors (inverse / transposed): displacements, value differences and variances pair the same measurements, all measurements are used, the orientation is consistent."),
}

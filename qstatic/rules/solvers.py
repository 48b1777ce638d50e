"""C14, C16, C17, C27, C33: solvers and gradient estimators."""
import ast
from fractions import Fraction
from .common import *
from .. import terms as T
from ..orders import Model
from ..terms import const, fn, TRUE, FALSE, NONE

NAME = ("param", "#parameter")


def params(f):
    return f.params()[0]


def compatible(p, scal, canon=lambda t: t, about=()):
    """is the path possible under these truth values? True / False / None (it depends on something about `about` that
    is not interpretable)"""
    class F:
        pass
    facts = []
    for f in p.facts:
        x = F()
        x.term, x.val, x.loops = canon(f.term), f.val, f.loops
        facts.append(x)
    ok, und = Model({}, scal).holds(facts)
    if not ok:
        return False
    for f in und:
        if any(T.contains(f.term, a) for a in about) and not only_domain(f.term, scal):
            return None
    return True


def only_domain(t, scal):
    return False


def mentions(p, *ts):
    return any(T.contains(f.term, t) for f in p.facts for t in ts)


def leaves(p, *srcs):
    """early exits of a loop over one of these sources on the path"""
    return [e for e in p.events if e.kind == "leave" and e.name == "break" and
            any(T.contains(x, s) for x in e.extra for s in srcs)]


class Newton:
    def __init__(self, ctx):
        i = ctx.run("NewtonSolver", "update_after_step")
        self.i, self.paths = i
        i = self.i
        ex = i.export() or {}
        for k in ("target", "gradient_estimators", "current_position", "current_values"):
            if k not in ex:
                raise AnalysisBroken("NewtonSolver exports no %s" % k)
        self.E, self.CP, self.CV, self.TG = ex["gradient_estimators"], ex["current_position"], ex["current_values"], ex["target"]
        self.D = T.item(self.TG, const("desired"))
        self.names = [T.index_of(self.CV), T.index_of(self.TG), T.index_of(self.D)]
        self.gates = T.index_of(self.CP)

    def canon(self, t):
        """elements of the parameter labels, and of series ordered by them, are written with one parameter name"""
        if not isinstance(t, tuple):
            return t
        if t[:1] == ("elem",) and len(t) == 2:
            b = t[1]
            if b in self.names:
                return NAME
            if b in (self.D, self.CV):
                return ("item", b, NAME)
            if b[0] == "item" and b[2] in self.names:
                return ("item", self.canon(b[1]), NAME)
        t = tuple(self.canon(x) if isinstance(x, tuple) else x for x in t)
        if t[:1] == ("item",) and len(t) == 3 and t[2] == NAME and t[1][0] == "item" and t[1][2] in self.names:
            return ("item", t[1][1], NAME)
        if t[:1] == ("item",) and len(t) == 3 and t[1] == ("item", self.TG, NAME) and T.is_str(t[2]):
            return ("item", T.item(self.TG, t[2]), NAME)
        return t


def c14(ctx):
    rep = ctx.rep
    nw = Newton(ctx)
    c0 = "NewtonSolver.update_after_step"
    f = ctx.prog.method(ctx.prog.cls("NewtonSolver"), "update_after_step")
    _, pos, val, var = [("param", x) for x in params(f)[:4]]
    has_target = fn("isna", ("item", nw.D, NAME))
    est = ("elem", nw.E)
    for p in nw.paths:
        if p.kind != "ret":
            continue
        ups = p.calls("update")
        good = [e for e in ups if T.contains(e.recv, nw.E)]
        wt = compatible(p, {has_target: False}, nw.canon, (nw.D,))
        wo = compatible(p, {has_target: True}, nw.canon, (nw.D,))
        if not good:
            if wt is not False:
                rep.check(None if wt is None or opaque_loop(p) else False, "estimators-updated", c0,
                          "an estimator whose parameter has a target is not updated", p.loc, p)
            continue
        if wo is not False:
            rep.check(None if wo is None else False, "only-with-target", c0,
                      "estimators are updated although their parameter has no target", good[0].loc, p)
        else:
            rep.ok("only-with-target", c0, good[0].loc)
        lv = leaves(p, nw.E, *nw.names)
        rep.check(not lv, "estimators-updated", c0, "the update of the estimators stops early", lv[0].loc if lv else None, p)
        for e in good:
            pp, vv, rr = e.arg(0, "position"), e.arg(1, "value"), e.arg(2, None)
            if rr is None:
                rr = e.kw.get("covariance", e.kw.get("variance"))
            new = e.kw.get("is_new_position", e.arg(3, None))
            rep.check(nw.canon(e.recv) == est or (None if vague(e.recv) else False), "own-data", c0 + "/estimator",
                      "the updated estimator is %s" % T.show(e.recv), e.loc, p)
            rep.check(True if pp == pos else wrong(pp), "own-data", c0 + "/position",
                      "the estimator receives %s as position" % T.show(pp or NONE), e.loc, p)
            for got, base, what in ((vv, val, "value"), (rr, var, "variance")):
                g = nw.canon(got) if got is not None else None
                rep.check(True if g == ("item", base, NAME) else wrong(g), "own-data", c0 + "/" + what,
                          "the estimator receives %s, expected the %s of its own parameter" % (T.show(got or NONE), what),
                          e.loc, p)
            rep.check(True if new == TRUE else wrong(new), "own-data", c0 + "/new",
                      "the position is %s declared new" % T.show(new or NONE), e.loc, p)
    for p in nw.paths:
        if p.kind != "ret":
            continue
        for key, base, old in (("current_position", pos, nw.gates), ("current_values", val, T.index_of(nw.CV))):
            t = (p.i.export(p.st) or {}).get(key)
            ok = t is not None and (t == T.item(base, old) or t == ("item", base, old) or
                                    (key == "current_values" and nw.canon(t) in [T.item(base, x) for x in nw.names]))
            rep.check(True if ok else wrong(t, base, old), "takes-over", c0 + "/" + key,
                      "%s becomes %s" % (key, T.show(t or NONE)), p.loc, p)
    rep.need("own-data", 4)
    rep.need("only-with-target")
    rep.need("takes-over", 2)
    # labels of the stored values are those of the target
    ic, pc = ctx.run("NewtonSolver", "__init__")
    tgt = ("param", "target")
    for p in pc:
        if p.kind != "ret":
            continue
        t = (p.i.export(p.st) or {}).get("current_values")
        ix = T.index_of(t) if t is not None else None
        if t is not None and t[0] == "fn" and t[1] == "Series":
            ix = dict(t[3]).get("index")
        want = [("attr", tgt, "index"), ("attr", T.item(tgt, const("desired")), "index")]
        rep.check(True if ix in want else wrong(t, tgt), "reference-labels", "NewtonSolver.__init__",
                  "the values are labelled by %s instead of the target" % T.show(ix or NONE), p.loc, p)
    rep.need("reference-labels")
    suggestion(ctx, nw)


def wrong(t, *ingredients):
    """False: fully interpreted and different, or an ingredient is missing; None: not interpretable"""
    if t is None:
        return False
    if any(not T.contains(t, x) for x in ingredients):
        return False
    return None if vague(t) else False


def unversioned(t):
    """results of calls without the counter of state changes"""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("mcall",):
        t = t[:5]
    return tuple(unversioned(x) if isinstance(x, tuple) else x for x in t)


def opaque_loop(p):
    return any(vague(f.term) for f in p.facts)


def suggestion(ctx, nw):
    rep = ctx.rep
    c0 = "NewtonSolver.suggest_next_position"
    i, paths = ctx.run("NewtonSolver", "suggest_next_position")
    est = ("elem", nw.E)
    has_target = fn("isna", ("item", nw.D, NAME))
    nreq = nstep = 0
    for p in paths:
        if p.kind != "ret":
            continue
        reqs = [e for e in p.calls("require_measurement")]
        hit = [e for e in reqs if p.ret == e.res]
        if hit or (reqs and any(T.contains(p.ret, e.res) for e in reqs)):
            nreq += 1
            e = (hit or reqs)[0]
            early = [x for x in p.events if x.kind == "leave"]
            rep.check(bool(early) and bool(hit), "first-request", c0, "the returned measurement %s is not the first one that an "
                      "estimator requests" % T.show(p.ret)[:300], p.loc, p)
            rep.check(e.recv == est or (None if vague(e.recv) else False), "request-order", c0,
                      "the measurement is requested from %s" % T.show(e.recv), e.loc, p)
            g = e.arg(0, "gates")
            rep.check(True if g == nw.gates else wrong(g), "request-gates", c0, "the request is made for the gates %s, "
                      "expected those of the solver's position" % T.show(g or NONE), e.loc, p)
            R = nw.canon(e.res)
            atoms = {has_target: False, T.is_none(R): False, T.cmp("==", fn("len", R), const(0)): False}
            for k, text in ((has_target, "its parameter has no target"), (T.is_none(R), "it is None"),
                            (T.cmp("==", fn("len", R), const(0)), "it is empty")):
                sc = dict(atoms)
                sc[k] = True
                r = compatible(p, sc, nw.canon, (nw.D, R))
                if r is None and k == has_target and not mentions(p, nw.D):
                    r = True
                rep.check(None if r is None else not r, "request-valid", c0, "a requested measurement is returned although %s"
                          % text, p.loc, p)
            continue
        nstep += 1
        # no estimator may request anything when the step is made
        for e in reqs:
            R = nw.canon(e.res)
            atoms = {has_target: False, T.is_none(R): False, T.cmp("==", fn("len", R), const(0)): False}
            r = compatible(p, atoms, nw.canon, (R,))
            rep.check(None if r is None else not r, "step-only-without-request", c0,
                      "the step is suggested although an estimator requests a measurement", p.loc, p)
        if not reqs:
            r = compatible(p, {has_target: False}, nw.canon, (nw.D,))
            rep.check(None if r is None else not r, "step-only-without-request", c0,
                      "the step is suggested without asking the estimators of parameters with a target", p.loc, p)
        step(rep, nw, p, c0)
    if not nreq:
        rep.bad("first-request", c0, "no measurement requested by an estimator is ever returned")
    if not nstep:
        rep.bad("step", c0, "no step is ever suggested")


def step(rep, nw, p, c0):
    ls = T.sub(p.ret, nw.CP)
    d = None
    if ls[0] == "item" and ls[2] == const(0):
        d = ls[1]
    elif ls[0] == "elem":
        d = ls[1]
    if d is None or d[0] not in ("fn", "call") or not str(d[1]).endswith("lstsq"):
        okish = T.contains(p.ret, nw.CP) and any(str(x[1]).endswith(("lstsq", "solve", "pinv")) for x in T.subterms(p.ret)
                                                 if x[0] in ("fn", "call"))
        rep.check(None if okish and vague(p.ret) else False, "step", c0, "the step is %s, expected the current position plus "
                  "the least-squares solution" % T.show(p.ret)[:500], p.loc, p)
        return
    J, diff = d[2][0], d[2][1]
    rep.check(jacobian(nw, J), "step-jacobian", c0, "the jacobian of the step is %s, expected the estimates of all estimators, "
              "row by row, restricted to the solver's gates" % T.show(J)[:400], p.loc, p)
    # the required change of each parameter
    for nan, want, text in ((True, const(0), "without target must keep its value"),
                            (False, T.sub(nw.D, nw.CV), "must move from its value to its target")):
        got = simplify(diff, {nw.D: nan, nw.CV: False})
        rep.check(True if got == want else (None if opaque(got) and T.contains(diff, nw.CV) and T.contains(diff, nw.D) else False),
                  "step-difference", c0, "a parameter %s, but the required change is %s" % (text, T.show(got)), p.loc, p)
    got = simplify(diff, {nw.D: True, nw.CV: True})
    rep.check(True if got == const(0) else (None if opaque(got) else False), "step-difference", c0,
              "a parameter without target and value yields the change %s" % T.show(got), p.loc, p)


def jacobian(nw, J):
    est = ("mcall", ("elem", nw.E), "estimate", (), ())
    gates = nw.gates
    J = unversioned(J)
    comp = [x for x in T.subterms(J) if x[0] == "comp" and x[2] == est and x[3] == (nw.E,) and not x[4]]
    if not comp:
        # accept other ways to collect all estimates only if they contain the estimates
        return None if T.contains(J, est) and vague(J) else False
    if not T.contains(J, gates):
        return False
    k = (("axis", const(1)), ("keys", nw.names[1]))
    want = T.item(fn("T", ("fn", "concat", (), k + (("objs", comp[0]),))), gates)
    rowwise = ("fn", "DataFrame", (), (("data", comp[0]),))
    if J == want or J == T.item(rowwise, gates):
        return True
    s = T.show(J)
    # one transposition if estimates are concatenated as columns, none if they are rows
    cols = any(x[0] == "fn" and x[1] == "concat" and dict(x[3]).get("axis") == const(1) for x in T.subterms(J))
    trans = sum(1 for x in set(T.subterms(J)) if x[0] == "fn" and x[1] == "T")
    if cols != (trans % 2 == 1):
        return False
    return True if not vague(J) else None


def simplify(t, known):
    """simplify an elementwise expression for one label whose entries are known to be NaN / not NaN"""
    def nan(x):
        if x in known:
            return known[x]
        if x == T.NAN:
            return True
        if T.is_num(x):
            return False
        if x[0] == "poly":
            r = [nan(a) for m, c in x[1] for a, e in m]
            return True if True in r else (False if all(y is False for y in r) else None)
        return None

    def rec(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x in known:
            return x
        if x[0] == "poly":
            out = const(0)
            for m, c in x[1]:
                y = ("const", c)
                for a, e in m:
                    y = T.mul(y, T.power(rec(a), e))
                out = T.add(out, y)
            return out
        if x[0] == "fn":
            name, a = x[1], [rec(y) for y in x[2]]
            if name in ("values", "asarray", "array", "copy", "deepcopy", "Series") and len(a) == 1:
                return a[0]
            if name == "Series" and not a:
                return rec(dict(x[3]).get("data", x))
            if name == "fillna" and len(a) == 2:
                n = nan(a[0])
                return a[1] if n else (a[0] if n is False else ("fn", name, tuple(a), x[3]))
            if name == "addfill" and len(a) == 2:
                fill = dict(x[3]).get("fill")
                n = [nan(y) for y in a]
                if n == [True, True]:
                    return T.NAN
                if None not in n:
                    b = [fill if m else y for y, m in zip(a, n)]
                    return T.add(b[0], b[1])
            if name in (".where", ".mask", ".combine_first", "numpy.where"):
                return where_(name, a, x)
            return ("fn", name, tuple(a), x[3])
        if x[0] == "ite":
            c = cond(x[1])
            if c is not None:
                return rec(x[2] if c else x[3])
        if x[0] == "call" and str(x[1]).endswith(("where", "nan_to_num")):
            a = [rec(y) for y in x[2]]
            if x[1].endswith("where") and len(a) == 3:
                c = cond(x[2][0])
                if c is not None:
                    return a[1] if c else a[2]
            if x[1].endswith("nan_to_num") and len(a) == 1:
                n = nan(a[0])
                return const(0) if n else (a[0] if n is False else x)
        if x[0] == "item" and x[1] in known:
            return x[1]
        return x

    def cond(c):
        if c[0] == "not":
            r = cond(c[1])
            return None if r is None else not r
        if c[0] == "fn" and c[1] == "isna":
            return nan(rec(c[2][0]))
        return None

    def where_(name, a, x):
        if name == "numpy.where" and len(a) == 3:
            c = cond(x[2][0])
            return x if c is None else (a[1] if c else a[2])
        if name == ".combine_first" and len(a) == 2:
            n = nan(a[0])
            return a[1] if n else (a[0] if n is False else x)
        if len(x[2]) < 2:
            return x
        c = cond(x[2][1])
        other = a[2] if len(a) > 2 else T.NAN
        if c is None:
            return x
        return (a[0] if c else other) if name == ".where" else (other if c else a[0])
    r = rec(t)
    if nan(r) is True:
        return T.NAN
    return r


# ------------------------------------------------------------------------------------------------ Kalman
def c16(ctx):
    rep = ctx.rep
    c0 = "KalmanGradientEstimator.update"
    cls = ctx.prog.cls("KalmanGradientEstimator")
    f = ctx.prog.method(cls, "update")
    pos, val, cov, new = [("param", x) for x in params(f)[1:5]]
    i, paths = ctx.run(cls, "update")
    ex = i.export() or {}
    K, P0, V0 = ex.get("kalman_gradient"), ex.get("current_position"), ex.get("current_value")
    if None in (K, P0, V0):
        raise AnalysisBroken("KalmanGradientEstimator exports no filter, position or value")
    PN = T.item(pos, T.index_of(P0))
    dpos = T.sub(PN, P0)
    dpos_d = [dpos] + [("fn", ".dropna", (dpos,) + x, ()) for x in ((), (const(0),))]
    dval = T.sub(val, V0)
    # how does the filter name its arguments
    kf = ctx.prog.method(ctx.prog.cls("KalmanGradient"), "update")
    kp = params(kf)[1:]
    nfil = 0
    for p in paths:
        if p.kind != "ret":
            continue
        upd = [e for e in p.calls("update") if e.recv == K]
        none = p.truth(T.is_none(V0))
        e1 = p.i.export(p.st) or {}
        fv, fp = e1.get("current_value"), e1.get("current_position")
        if none is True:
            rep.check(not upd, "first-no-filter", c0, "the filter is updated without a reference value", p.loc, p)
            rep.check(True if fv == val else wrong(fv), "first-records", c0 + "/value",
                      "the reference value becomes %s" % T.show(fv or NONE), p.loc, p)
            rep.check(True if fp == PN else wrong(fp, pos), "first-records", c0 + "/position",
                      "the reference position becomes %s" % T.show(fp or NONE), p.loc, p)
            continue
        if none is None:
            rep.check(not upd, "first-no-filter", c0, "the filter is updated without checking for a reference value", p.loc, p)
        rep.check(len(upd) <= 1, "one-update", c0, "the filter is updated %d times" % len(upd), p.loc, p)
        moved = displacement(p, dpos_d)
        for e in upd:
            nfil += 1
            a = {k: e.arg(n, k) for n, k in enumerate(kp)}
            dp, dv, mc = a.get("diff_position"), a.get("diff_values"), a.get("measurement_covariance")
            rep.check(True if dp in dpos_d else wrong(dp), "displacement", c0 + "/position",
                      "the filter receives %s as displacement, expected new position minus reference" % T.show(dp or NONE), e.loc, p)
            okv = dv in (("list", (dval,)), ("tuple", (dval,)), dval) or (dv is not None and dv[0] == "fn" and
                                                                          dv[1] in ("array", "asarray") and
                                                                          dv[2][0] in (("list", (dval,)), dval))
            rep.check(True if okv else wrong(dv), "displacement", c0 + "/value",
                      "the filter receives %s as change of the value" % T.show(dv or NONE), e.loc, p)
            rep.check(True if mc == cov else wrong(mc), "displacement", c0 + "/variance",
                      "the filter receives %s as measurement variance" % T.show(mc or NONE), e.loc, p)
            rep.check(moved, "only-displaced", c0, "the filter is updated without a displacement", e.loc, p)
        if not upd:
            rep.check(not_(moved) if moved is not None else False, "displaced-used", c0,
                      "a displaced measurement does not reach the filter", p.loc, p)
        n = p.truth(new)
        if n is True:
            rep.check(True if fv == val else wrong(fv), "reference-moves", c0 + "/value",
                      "the reference value becomes %s at a new position" % T.show(fv or NONE), p.loc, p)
            rep.check(True if fp == PN else wrong(fp), "reference-moves", c0 + "/position",
                      "the reference position becomes %s at a new position" % T.show(fp or NONE), p.loc, p)
        elif n is False:
            rep.check(fv == V0 and fp == P0, "reference-stays", c0, "the reference changes to %s, %s although the position is "
                      "not declared new" % (T.show(fp or NONE), T.show(fv or NONE)), p.loc, p)
        else:
            rep.check(None if opaque_loop(p) else False, "reference-moves", c0, "is_new_position is ignored", p.loc, p)
    for r, n in (("displacement", 3), ("reference-moves", 2), ("reference-stays", 1), ("first-records", 2)):
        rep.need(r, n)
    if not nfil:
        rep.bad("displaced-used", c0, "the filter is never updated")
    # the filter itself
    c1 = "KalmanGradient.update"
    i, paths = ctx.run("KalmanGradient", "update")
    flt = i.initial("filter")
    for p in paths:
        if p.kind != "ret":
            continue
        us = [e for e in p.calls("update") if e.recv == flt]
        rep.check(len(us) == 1, "filter-update", c1, "the filter is updated %d times" % len(us), p.loc, p)
        for e in us:
            z, R, H = e.arg(0, "z"), e.kw.get("R", e.arg(1)), e.kw.get("H", e.arg(2))
            for got, name in ((z, "diff_values"), (R, "measurement_covariance"), (H, "diff_position")):
                others = [("param", x) for x in kp if x != name]
                ok = got is not None and T.contains(got, ("param", name)) and not any(T.contains(got, x) for x in others)
                rep.check(ok, "filter-data", c1 + "/" + name, "the filter receives %s" % T.show(got or NONE), e.loc, p)
            pr = [x for x in p.calls("predict") if x.recv == flt]
            want = p.truth(("param", "predict"))
            if want is not None:
                rep.check(bool(pr) == want, "filter-predict", c1, "the prediction is %smade" % ("" if pr else "not "), e.loc, p)
            for x in pr:
                rep.check(p.index(x) < p.index(e), "filter-predict", c1, "the prediction follows the update", x.loc, p)
                q = x.kw.get("Q", x.arg(3))
                rep.check(True if q == ("param", "process_covariance") else wrong(q), "filter-data", c1 + "/process_covariance",
                          "the prediction uses %s" % T.show(q or NONE), x.loc, p)
    # restart
    for c in [cls] + [x for x in ctx.prog.subclasses("KalmanGradientEstimator") if x is not cls]:
        i, paths = ctx.run(c, "restart")
        np_ = ("param", params(ctx.prog.method(c, "restart"))[1])
        for p in paths:
            if p.kind != "ret":
                continue
            e1 = p.i.export(p.st) or {}
            rep.check(is_value(p, e1.get("current_value", T.NAN), NONE), "restart-drops", c.name + ".restart",
                      "the reference value is %s after a restart" % T.show(e1.get("current_value", NONE)), p.loc, p)
            cp = e1.get("current_position", NONE)
            rep.check(T.contains(cp, np_) or (None if vague(cp) else False), "restart-moves", c.name + ".restart",
                      "the position is %s after a restart" % T.show(cp), p.loc, p)
    rep.need("restart-drops")
    self_initialising(ctx)


def not_(x):
    return None if x is None else not x


def displacement(p, dpos):
    """True: the path is taken only with a displacement; False: only without; None: not distinguished"""
    for d in dpos:
        for n in (("fn", "norm", (d,), ()), fn("norm", d), fn("norm", fn("values", d))):
            for f in p.facts:
                if f.term[0] in ("<0", "<=0", "==0") and T.contains(f.term, n):
                    lin = T.linear(f.term[1])
                    if lin is None or set(lin[1]) != {n}:
                        continue
                    k, c = lin[0], lin[1][n]
                    # n < eps (eps small and positive), n <= eps, n == 0; or the reverse orientation
                    eps = -k / c
                    if not (0 <= eps <= 1e-3):
                        continue
                    if f.term[0] == "==0" or c > 0:
                        if eps == 0 and f.term[0] == "<0":
                            continue
                        return not f.val
                    if eps == 0 and f.term[0] == "<=0":
                        continue
                    return f.val
        for f in p.facts:
            if f.term[0] == "fn" and f.term[1] == "any" and T.contains(f.term, d) and ("==0" in repr(f.term) or "<0" in repr(f.term)):
                return f.val
            if f.term == fn("any", d):
                return f.val
    return None


def self_initialising(ctx):
    """the estimator that starts with finite differences"""
    rep = ctx.rep
    if "SelfInitializingKalmanEstimator" not in ctx.prog.classes and not any(
            c.name == "SelfInitializingKalmanEstimator" for c in ctx.prog.classes.values()):
        return
    c0 = "SelfInitializingKalmanEstimator.update"
    cls = ctx.prog.cls("SelfInitializingKalmanEstimator")
    f = ctx.prog.method(cls, "update")
    pos, val, cov, new = [("param", x) for x in params(f)[1:5]]
    i, paths = ctx.run(cls, "update")
    ex = i.export() or {}
    FD, KE = ex.get("finite_difference_estimator"), ex.get("kalman_estimator")
    for p in paths:
        if p.kind != "ret":
            continue
        fd = [e for e in p.calls("update") if e.recv == FD]
        ke = [e for e in p.calls("update") if e.recv == KE]
        active = p.truth(KE)
        if active is None:
            d = p.truth(T.is_none(KE))
            active = None if d is None else not d
        if active:
            rep.check(len(ke) == 1, "self-init-forward", c0, "the Kalman estimator receives %d updates" % len(ke), p.loc, p)
        elif active is False:
            rep.check(len(fd) == 1, "self-init-forward", c0, "the finite difference estimator receives %d updates" % len(fd), p.loc, p)
        for e in fd + ke:
            args = [e.arg(n, k) for n, k in enumerate(("position", "value", None, "is_new_position"))]
            if args[2] is None:
                args[2] = e.kw.get("covariance", e.kw.get("variance"))
            ok = args[0] == pos and args[1] == val and args[2] == cov and args[3] == new
            rep.check(ok or (None if any(a is not None and vague(a) for a in args) else False), "self-init-forward", c0,
                      "the measurement is forwarded as %s" % ", ".join(T.show(a or NONE) for a in args), e.loc, p)
        fin = (p.i.export(p.st) or {}).get("kalman_estimator")
        if active is False:
            est = ("mcall", FD, "estimate", (), ())
            known = None
            for fct in p.facts:
                if unversioned(fct.term) == T.is_none(est):
                    known = fct.val
            fin = unversioned(fin) if fin is not None else None
            if known is False:
                made = fin is not None and fin[0] == "new"
                rep.check(made or (None if fin is not None and vague(fin) else False), "self-init-start", c0,
                          "the Kalman estimator is not created although the gradient is known", p.loc, p)
                if made:
                    kw = {k: v for k, v in fin[3]} if len(fin) > 3 and isinstance(fin[3], tuple) else {}
                    rep.check(T.contains(fin, est), "self-init-gradient", c0, "the Kalman estimator does not start from the "
                              "finite difference gradient", p.loc, p)
                    rep.check(T.contains(fin, ("mcall", FD, "covariance", (), ())), "self-init-gradient", c0 + "/covariance",
                              "the Kalman estimator does not start from the covariance", p.loc, p)
                    rep.check(T.contains(fin, pos) and T.contains(fin, val), "self-init-gradient", c0 + "/reference",
                              "the Kalman estimator does not start at the present position and value", p.loc, p)
            elif known is True:
                rep.check(is_value(p, fin, KE) or is_value(p, fin, NONE) or (fin == KE), "self-init-start", c0,
                          "a Kalman estimator is created without a gradient", p.loc, p)
    rep.need("self-init-forward", 2)


# ------------------------------------------------------------------------------------------------ finite differences
def c17(ctx):
    rep = ctx.rep
    cls = ctx.prog.cls("FiniteDifferencesGradientEstimator")
    c0 = cls.name + ".require_measurement"
    i, paths = ctx.run(cls, "require_measurement", opaque=("get_orthogonal_vector",))
    ex = i.export() or {}
    CP, EST, SM, SYM, COV = [ex.get(k) for k in ("current_position", "current_estimate", "stored_measurements", "symmetric",
                                                 "covariance")]
    if None in (CP, EST, SM, SYM, COV):
        raise AnalysisBroken("the finite difference estimator does not export its state")
    nopos = T.all_(fn("isna", CP))
    for p in paths:
        np_ = p.truth(nopos)
        known = p.truth(T.is_none(EST))
        if p.kind == "ret":
            rn = is_value(p, p.ret, NONE)
            if np_ is True:
                rep.bad("needs-position", c0, "a measurement is answered although no position is defined", p.loc, p)
            if known is True:
                rep.check(not_(rn) if rn is not None else (None if vague(p.ret) else True), "requests", c0,
                          "no measurement is requested although there is no estimate", p.loc, p)
                if np_ is None:
                    rep.bad("needs-position", c0, "a measurement is requested without checking the position", p.loc, p)
                if rn is not True:
                    rep.check(T.contains(p.ret, CP) or (None if vague(p.ret) else False), "around-position", c0,
                              "the requested measurement %s does not lie around the position" % T.show(p.ret)[:300], p.loc, p)
            elif known is False:
                rep.check(rn, "no-request", c0, "a measurement is requested although the gradient is known", p.loc, p)
            else:
                rep.check(None if vague(p.ret) else False, "requests", c0, "the request does not depend on the estimate", p.loc, p)
        elif np_ is not True and known is not True:
            rep.bad("no-request", c0, "asking for a measurement raises although the gradient is known", p.loc, p)
    rep.check(any(p.kind == "raise" and p.truth(nopos) is True for p in paths) or None, "needs-position", c0,
              "no error without a position")
    # no request while unknown may fail: refusals other than the missing position only beyond the protocol's number of points
    for p in paths:
        if p.kind == "raise" and p.truth(nopos) is False and p.truth(T.is_none(EST)) is True:
            n, d = fn("len", SM), fn("len", CP)
            beyond = None
            for f in p.facts:
                if T.contains(f.term, n) and T.contains(f.term, d):
                    beyond = f
            ok = p.i.decide(p.st, T.cmp(">", n, d))
            rep.check(ok, "request-total", c0, "the request fails within the protocol", p.loc, p)
    # every stored measurement spans the space the next direction is orthogonal to
    for p in paths:
        for e in p.calls("get_orthogonal_vector"):
            sym = p.truth(SYM)
            one = p.i.decide(p.st, T.cmp("==", fn("len", SM), const(1)))
            a = e.args[0] if e.args else next((v for _, v in e.kw.items()), None)
            if one is True or sym is None or a is None:
                continue
            res = True
            for n in (2, 4, 6) if sym else (2, 3, 4):
                vs = span_vectors(a, SM, CP, n)
                if vs is None:
                    res = None
                    break
                if sym:
                    # the points come in mirrored pairs: v[2k+1] = 2 p - v[2k]
                    red = []
                    for v in vs:
                        row = [Fraction(0)] * (n // 2)
                        for key, x in v.items():
                            if key != "p":
                                row[key // 2] += x if key % 2 == 0 else -x
                        red.append(row)
                    ok = all(sum(v.values()) == 0 for v in vs) and rank(red) == n // 2
                else:
                    if any("p" in v for v in vs):
                        res = None
                        break
                    ok = all(sum(v.values()) == 0 for v in vs) and rank([[v.get(j, Fraction(0)) for j in range(n)] for v in vs]) == n - 1
                if not ok:
                    res = False
                    break
            if res is None and not T.contains(a, SM):
                res = False
            rep.check(res, "independent-direction", c0 + ("/symmetric" if sym else "/asymmetric"), "the next direction is orthogonal to "
                      "%s only, not to all stored measurements" % T.show(a)[:300], e.loc, p)
    # the second measurement of a pair mirrors the first
    for p in paths:
        if p.kind == "ret" and p.truth(SYM) is True and p.i.decide(p.st, T.cmp("==", fn("mod", fn("len", SM), const(2)), const(1))) is True \
                and p.truth(T.is_none(EST)) is True:
            v = span_value(p.ret, SM, CP, 5, {})
            rep.check(None if v is None else v == {"p": 2, 4: -1}, "mirrored", c0, "the second measurement of a pair is requested at %s"
                      % T.show(p.ret)[:200], p.loc, p)
    rep.need("requests")
    rep.need("no-request")
    rep.need("independent-direction", 2)
    rep.need("mirrored")
    # updates
    c1 = cls.name + ".update"
    f = ctx.prog.method(cls, "update")
    pos, val, var = [("param", x) for x in params(f)[1:4]]
    i, paths = ctx.run(cls, "update", opaque=("calculate_gradient_non_orthogonal",))
    n0, d = fn("len", SM), fn("len", CP)
    for p in paths:
        if p.kind != "ret":
            continue
        e1 = p.i.export(p.st) or {}
        np_, known, sym = p.truth(nopos), p.truth(T.is_none(EST)), p.truth(SYM)
        sm, est, cov = e1.get("stored_measurements"), e1.get("current_estimate"), e1.get("covariance")
        stored = sm is not None and sm != SM
        calc = p.calls("calculate_gradient_non_orthogonal")
        if known is False and np_ is not True:
            rep.check(est == EST and cov == COV and not calc, "estimate-stable", c1, "an update changes the known estimate", p.loc, p)
            continue
        if np_ is True:
            if sym is False:
                rep.check(stored, "stores", c1 + "/first", "the first measurement of an asymmetric estimator is not stored", p.loc, p)
            cp1 = e1.get("current_position", NONE)
            rep.check(T.contains(cp1, pos) or (None if vague(cp1) else False), "fixes-position", c1,
                      "the first measurement does not define the position", p.loc, p)
        elif known is True:
            rep.check(stored, "stores", c1, "a measurement is not stored", p.loc, p)
        if stored:
            entry = sm[2] if sm[0] == "append" and sm[1] == SM else None
            ok = entry is not None and entry[0] in ("tuple", "list") and len(entry[1]) >= 3 and \
                T.contains(entry[1][0], pos) and entry[1][1] == val and entry[1][2] == var
            rep.check(True if ok else wrong(sm, SM, pos, val, var), "stores-data", c1, "the stored measurement is %s" % T.show(
                entry or sm)[:300], p.loc, p)
        if known is True and np_ is False and stored and sym is not None:
            # computed exactly at the full number
            n = fn("len", sm)
            want = T.cmp("==", n, T.mul(const(2), d) if sym else T.add(d, const(1)))
            full = p.i.decide(p.st, want)
            if calc:
                rep.check(full, "computed-when-complete", c1 + ("/symmetric" if sym else "/asymmetric"),
                          "the gradient is computed with an incomplete set of measurements", calc[0].loc, p)
            else:
                rep.check(None if full is None and any(T.contains(x.term, SM) and vague(x.term) for x in p.facts) else full is False,
                          "computed-when-complete", c1 + ("/symmetric" if sym else "/asymmetric"),
                          "the gradient is not computed with the complete set of measurements", p.loc, p)
        elif known is True and np_ is False and stored and sym is None:
            n = fn("len", sm)
            early = [p.i.decide(p.st, T.and_(SYM, T.cmp("==", n, T.mul(const(2), d)))),
                     p.i.decide(p.st, T.and_(T.not_(SYM), T.cmp("==", n, T.add(d, const(1)))))]
            ok = not calc and early == [False, False]
            rep.check(ok or (None if any(vague(x.term) for x in p.facts) else False), "computed-when-complete", c1,
                      "the number of measurements does not depend on the mode", p.loc, p)
        for e in calc:
            a = [e.arg(k, nm) for k, nm in enumerate(("positions", "values", "variances"))]
            shapes = [columns(x, sm) for x in a]
            for k, (s, nm) in enumerate(zip(shapes, ("positions", "values", "variances"))):
                rep.check(None if s is None and a[k] is not None and T.contains(a[k], SM) and vague(a[k]) else
                          (s is not None and s[0] == k), "all-measurements", c1 + "/" + nm,
                          "the gradient is computed from %s as %s" % (T.show(a[k] or NONE)[:300], nm), e.loc, p)
            if all(s is not None for s in shapes):
                rep.check(len({s[1] for s in shapes}) == 1, "matching-order", c1, "positions, values and variances are in "
                          "different orders", e.loc, p)
                if sym is False:
                    rep.check(shapes[0][1] == -1, "base-point", c1, "the reference of the asymmetric differences is not the last "
                              "measurement", e.loc, p)
            for key, t, n in (("current_estimate", est, 0), ("covariance", cov, 1)):
                part = T.item(e.res, const(n))
                gates = T.index_of(CP)
                ok = t is not None and T.contains(t, part) and T.contains(t, gates)
                rep.check(True if ok else wrong(t, part), "labelled", c1 + "/" + key, "%s becomes %s" % (key, T.show(t or NONE)[:300]),
                          p.loc, p)
    for r, n in (("stores", 2), ("stores-data", 2), ("computed-when-complete", 4), ("all-measurements", 6), ("labelled", 4),
                 ("estimate-stable", 1)):
        rep.need(r, n)


def span_value(t, sm, cp, n, env):
    """the point t as a combination of the stored positions (0 .. n-1) and the position p, restricted to gates; None if unknown"""
    if t in env:
        v = env[t]
        return v
    if t == cp:
        return {"p": Fraction(1)}
    if t[0] == "elem":
        return None
    if t[0] == "poly":
        out = {}
        for mono, c in t[1]:
            if len(mono) != 1 or mono[0][1] != 1:
                return None
            v = span_value(mono[0][0], sm, cp, n, env)
            if not isinstance(v, dict):
                return None
            for k, x in v.items():
                out[k] = out.get(k, Fraction(0)) + c * x
        return {k: x for k, x in out.items() if x}
    if t[0] == "item":
        if T.is_num(t[2]) and t[2][1] == int(t[2][1]):
            k = int(t[2][1])
            r = span_value(t[1], sm, cp, n, env)
            if isinstance(r, tuple) and r[0] == "row":
                return {r[1]: Fraction(1)} if k == 0 else None
            s = span_seq(t[1], sm, cp, n, env)
            return s[k] if s is not None and -len(s) <= k < len(s) else None
        if t[2][0] == "slice":
            return None
        return span_value(t[1], sm, cp, n, env)      # restricted to gates
    if t[0] == "fn" and t[1] == "Series" and dict(t[3]).get("data") == const(0):
        return {}
    if t[0] == "fn" and t[1] == "copy":
        return span_value(t[2][0], sm, cp, n, env)
    return None


def span_seq(t, sm, cp, n, env):
    if t == sm:
        return [("row", k) for k in range(n)]
    if t[0] in ("list", "tuple"):
        out = [span_value(x, sm, cp, n, env) for x in t[1]]
        return None if any(x is None for x in out) else out
    if t[0] == "item" and t[2][0] == "slice":
        s = span_seq(t[1], sm, cp, n, env)
        b = [None if x == NONE else int(x[1]) if T.is_num(x) else "?" for x in t[2][1:4]]
        return None if s is None or "?" in b else s[slice(*b)]
    if t[0] == "fn" and t[1] in ("list", "tuple") and len(t[2]) == 1:
        return span_seq(t[2][0], sm, cp, n, env)
    if t[0] == "fn" and t[1] == "reversed":
        s = span_seq(t[2][0], sm, cp, n, env)
        return None if s is None else s[::-1]
    if t[0] == "comp" and not t[4]:
        srcs = [span_seq(x, sm, cp, n, env) for x in t[3]]
        if any(x is None for x in srcs):
            return None
        out = []
        for vals in zip(*srcs):
            e2 = dict(env)
            for x, v in zip(t[3], vals):
                e2[("elem", x)] = v
            out.append(span_value(t[2], sm, cp, n, e2))
        return None if any(x is None for x in out) else out
    return None


def span_vectors(t, sm, cp, n):
    s = span_seq(t, sm, cp, n, {})
    return None if s is None or not all(isinstance(x, dict) for x in s) else s


def rank(rows):
    rows = [list(r) for r in rows]
    r = 0
    for c in range(len(rows[0]) if rows else 0):
        piv = next((k for k in range(r, len(rows)) if rows[k][c]), None)
        if piv is None:
            continue
        rows[r], rows[piv] = rows[piv], rows[r]
        for k in range(len(rows)):
            if k != r and rows[k][c]:
                f = rows[k][c] / rows[r][c]
                rows[k] = [a - f * b for a, b in zip(rows[k], rows[r])]
        r += 1
    return r


def columns(t, sm):
    """(column, direction) if t is one column of the stored measurements, in order (1) or reversed (-1)"""
    if t is None:
        return None
    d = 1
    while True:
        if t[0] == "item" and t[2][0] == "slice" and t[2][1] == NONE and t[2][2] == NONE:
            if t[2][3] == const(-1):
                d = -d
            elif t[2][3] not in (NONE, const(1)):
                return None
            t = t[1]
        elif t[0] == "fn" and t[1] == "reversed":
            d = -d
            t = t[2][0]
        elif t[0] == "fn" and t[1] in ("list", "tuple"):
            t = t[2][0]
        else:
            break
    if t[0] != "comp" or len(t[3]) != 1 or t[4]:
        return None
    src = t[3][0]
    if src != sm:
        s2 = columns_src(src, sm)
        if s2 is None:
            return None
        d *= s2
    x = t[2]
    if x[0] == "item" and x[1] == ("elem", t[3][0]) and T.is_num(x[2]):
        return int(x[2][1]), d
    return None


def columns_src(t, sm):
    d = 1
    while t != sm:
        if t[0] == "item" and t[2][0] == "slice" and t[2][1] == NONE and t[2][2] == NONE and t[2][3] == const(-1):
            d, t = -d, t[1]
        elif t[0] == "fn" and t[1] == "reversed":
            d, t = -d, t[2][0]
        elif t[0] == "fn" and t[1] in ("list", "tuple"):
            t = t[2][0]
        else:
            return None
    return d


# ------------------------------------------------------------------------------------------------ Nelder-Mead
class Simplex:
    PHASES = ("reflect", "expand", "contract_outside", "contract_inside", "shrink", "start_iteration", "build_up")

    def __init__(self, ctx):
        self.cls = ctx.prog.cls("NelderMeadSolver")
        self.ups = ctx.run(self.cls, "update_after_step")
        i = self.ups[0]
        ex = i.export() or {}
        for k in ("simplex", "state", "current_position", "current_values", "target", "shrunk_points", "reflected_point"):
            if k not in ex:
                raise AnalysisBroken("NelderMeadSolver exports no %s" % k)
        self.S, self.CP, self.CV, self.TG = ex["simplex"], ex["current_position"], ex["current_values"], ex["target"]
        self.SH, self.R = ex["shrunk_points"], ex["reflected_point"]
        x = ex["state"]
        self.state_export = x
        self.ST = x[1] if x[0] == "attr" else x
        f = ctx.prog.method(self.cls, "update_after_step")
        self.pos, self.val = [("param", n) for n in params(f)[1:3]] if params(f)[0] == "self" else \
            [("param", n) for n in params(f)[:2]]
        self.P, self.V = T.item(self.pos, T.index_of(self.CP)), T.item(self.val, T.index_of(self.CV))
        self.enum = {}
        for c in [self.cls] + list(ctx.prog.classes.values()):
            for n, node in getattr(c, "inner", {}).items():
                for s in node.body:
                    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant) \
                            and c is self.cls:
                        self.enum[s.targets[0].id] = ("enum", n, s.targets[0].id, const(s.value.value))
        self.CF = ex.get("cost_function")
        self.D = T.item(self.TG, const("desired"))

    def costs(self, v):
        d = T.sub(v, self.D)
        return [("fn", "sum", (T.mul(d, d),), ()), fn("sum", T.power(d, 2))] + (
            [("mcall", self.CF[1], self.CF[2], (d,), (), k) for k in range(4)] +
            [("mcall", self.CF, "()", (d,), (), k) for k in range(4)] if self.CF and self.CF[0] == "attr" else [])

    def model(self, phase, n, k, full, cost=None):
        """truth values / numbers of the quantities a path may ask for: n gates, k shrunk points"""
        sc = {}
        for m, e in self.enum.items():
            sc[("==",) + tuple(sorted((self.ST, e), key=T._key))] = m == phase
            sc[("is", self.ST, e)] = m == phase
        sc[fn("len", self.S)] = float(full)
        sc[fn("len", self.SH)] = float(k)
        for x in {fn("len", self.CP), fn("len", fn("values", self.CP)), fn("len", ("attr", self.CP, "index"))}:
            sc[x] = float(n)
        for v, c in (cost or {}).items():
            for t in self.costs(v):
                sc[t] = c
        return sc


def c27(ctx):
    rep = ctx.rep
    nm = Simplex(ctx)
    if not all(p in nm.enum for p in Simplex.PHASES):
        rep.unk("phases", "NelderMeadSolver", "the phases are not those of the reference protocol")
        return
    c0 = "NelderMeadSolver.update_after_step"
    # exported state
    x = nm.state_export
    rep.check(x == ("attr", nm.ST, "value") or (x[0] == "const") or (None if vague(x) else False), "state-export",
              "NelderMeadSolver.to_hdf5", "the phase is exported as %s, but the constructor looks it up by value" % T.show(x))
    i, paths = ctx.run(nm.cls, "__init__")
    for p in paths:
        if p.kind != "ret":
            continue
        t = (p.i.export(p.st) or {}).get("state")
        ok = t is not None and T.contains(t, ("param", "state"))
        rep.check(True if ok else wrong(t, ("param", "state")), "state-import", "NelderMeadSolver.__init__",
                  "the phase becomes %s" % T.show(t or NONE), p.loc, p)
    # cost
    i, paths = ctx.run(nm.cls, "cost_function")
    v = ("param", params(ctx.prog.method(nm.cls, "cost_function"))[-1])
    for p in paths:
        if p.kind != "ret":
            continue
        given = p.truth(nm.CF)
        if given is None:
            g = p.truth(T.is_none(nm.CF))
            given = None if g is None else not g
        d = T.sub(v, nm.D)
        own = [("fn", "sum", (T.mul(d, d),), ()), ("fn", "matmul", (d, d), ())]
        if given is False:
            rep.check(True if p.ret in own else (None if vague(p.ret) or opaque(p.ret) else False), "cost-default",
                      "NelderMeadSolver.cost_function", "the cost is %s, expected the sum of squared distances to the target"
                      % T.show(p.ret), p.loc, p)
        elif given:
            ok = p.ret in nm.costs(v)
            rep.check(ok or (None if vague(p.ret) else False), "cost-given", "NelderMeadSolver.cost_function",
                      "the cost is %s, expected the given function of the distance to the target" % T.show(p.ret), p.loc, p)
        else:
            rep.bad("cost-given", "NelderMeadSolver.cost_function", "the given cost function is ignored", p.loc, p)
    i, paths = ctx.run(nm.cls, "get_costs", opaque=("cost_function",))
    for p in paths:
        if p.kind == "ret" and p.ret[0] == "comp":
            rep.check(p.ret[3] == (nm.S,) and not p.ret[4] and T.contains(p.ret[2], ("item", ("elem", nm.S), const(1))) or
                      (None if vague(p.ret) else False), "cost-list", "NelderMeadSolver.get_costs",
                      "the costs are %s" % T.show(p.ret), p.loc, p)
    # suggestion: defined in each phase, right formula
    i, sug = ctx.run(nm.cls, "suggest_next_position")
    ups = nm.ups[1]
    suggestions(rep, nm, sug)
    transitions(rep, nm, ups, c0)
    for r, n in (("phase-defined", 6), ("transition", 10), ("simplex-size", 6), ("accepted-restarts", 6)):
        rep.need(r, n)


def possible(p, sc):
    """True / False; facts that cannot be decided leave a path possible"""
    return compatible(p, sc) is not False


def possible_at(p, sc):
    class F:
        pass
    return Model({}, sc).holds(p.facts)


def suggestions(rep, nm, sug):
    c1 = "NelderMeadSolver.suggest_next_position"
    m = None
    for phase in nm.enum:
        if phase == "build_up":
            continue
        for n in (1, 2, 3):
            for k in (range(n) if phase == "shrink" else (0,)):
                hits = [(p,) + possible_at(p, nm.model(phase, n, k, n + 1)) for p in sug]
                hits = [(p, u) for p, ok, u in hits if ok]
                rets = [p for p, u in hits if p.kind == "ret"]
                for p, u in hits:
                    if p.kind == "raise":
                        rep.check(None if u else False, "phase-defined", c1 + "/" + phase, "no next position in phase %s with %d "
                                  "gates and %d shrunk points" % (phase, n, k), p.loc, p)
                    else:
                        rep.check(not_(is_value(p, p.ret, NONE)), "phase-defined", c1 + "/" + phase,
                                  "the next position in phase %s is None" % phase, p.loc, p)
                        if n == 2:
                            formula(rep, nm, phase, p, c1)
                        # the phase in which the answer will be interpreted
                        fin = final_phase(nm, p)
                        want = "reflect" if phase == "start_iteration" else phase
                        rep.check(True if fin == want or (fin is None and want == phase) else
                                  (None if fin == "?" else False), "phase-kept", c1 + "/" + phase,
                                  "the suggestion made in phase %s will be judged in phase %s" % (phase, fin or phase), p.loc, p)
                if not hits:
                    rep.unk("phase-defined", c1 + "/" + phase, "no path found for phase %s" % phase)
    for n in (1, 2, 3):
        for s in range(1, n + 1):
            hits = [p for p in sug if possible_at(p, nm.model("build_up", n, 0, s))[0]]
            for p in hits:
                rep.check(p.kind == "ret" or None, "phase-defined", c1 + "/build_up", "no next position during build-up", p.loc, p)


def final_phase(nm, p):
    """name of the phase after the path; None: unchanged; '?': not known"""
    t = (p.i.export(p.st) or {}).get("state")
    if t is None or t == nm.state_export:
        return None
    for m, e in nm.enum.items():
        if t in (e, e[3]):
            return m
    return "?"


def formula(rep, nm, phase, p, c1):
    pos = lambda i: T.item(T.item(nm.S, i), const(0))
    w = pos(const(-1))
    means = [x for x in T.subterms(p.ret) if x[0] == "fn" and x[1] in (".mean", "mean") and T.contains(x, nm.S)]
    if phase == "shrink":
        k = T.add(fn("len", nm.SH), const(1))
        mid = T.add(T.mul(const(0.5), pos(const(0))), T.mul(const(0.5), T.item(T.item(nm.S, k), const(0))))
        alt = T.add(T.mul(const(0.5), pos(const(0))), T.mul(const(0.5), T.item(("comp", "list", T.item(("elem", nm.S), const(0)),
                                                                                (nm.S,), ()), k)))
        rep.check(True if p.ret in (mid, alt) else (None if vague(p.ret) or opaque(p.ret) else False), "suggestion", c1 + "/" + phase,
                  "the point suggested while shrinking is %s" % T.show(p.ret)[:300], p.loc, p)
        return
    a, b = {"reflect": (2, -1), "start_iteration": (2, -1), "expand": (3, -2), "contract_outside": (1.5, -0.5),
            "contract_inside": (0.5, 0.5)}[phase]
    if not means:
        rep.unk("suggestion", c1 + "/" + phase, "no mean of the simplex in %s" % T.show(p.ret)[:200], p.loc)
        return
    m = means[0]
    axis = dict(m[3]).get("axis", m[2][1] if len(m[2]) > 1 else const(0))
    if axis in (const(0), const("index")):
        want = T.add(T.mul(const(a), m), T.mul(const(b), w))
        rep.check(True if p.ret == want else (None if vague(p.ret) else False), "suggestion", c1 + "/" + phase,
                  "the point suggested in phase %s is %s" % (phase, T.show(p.ret)[:300]), p.loc, p)
    else:
        rep.bad("suggestion", c1 + "/" + phase, "the simplex is not averaged over its points", p.loc, p)


def transitions(rep, nm, ups, c0):
    new = nm.V
    S = lambda i: T.item(T.item(nm.S, const(i)), const(1))
    refl = T.item(nm.R, const(1))

    def run(phase, k, cost, n=3):
        sc = nm.model(phase, n, k, n + 1, cost)
        out = []
        for p in ups:
            ok, und = possible_at(p, sc)
            if ok:
                out.append((p, und))
        return out, sc

    base = {S(0): 1.0, S(1): 2.0, S(-3): 2.0, S(-2): 3.0, S(-1): 4.0, refl: 2.5}
    table = []
    for c, want, acc in ((0.5, ("expand",), None), (1.5, ("start_iteration", "reflect"), "new"),
                         (3.5, ("contract_outside",), None), (4.5, ("contract_inside",), None)):
        table.append(("reflect", 0, c, want, acc))
    for c in (0.5, 1.5, 2.2):
        table.append(("expand", 0, c, ("start_iteration",), "new"))
        table.append(("contract_outside", 0, c, ("start_iteration",), "new"))
    for c in (2.7, 3.5, 4.5):
        table.append(("expand", 0, c, ("start_iteration",), "reflected"))
        table.append(("contract_outside", 0, c, ("shrink",), None))
    for c in (0.5, 2.5, 3.5):
        table.append(("contract_inside", 0, c, ("start_iteration",), "new"))
    table.append(("contract_inside", 0, 4.5, ("shrink",), None))
    for k in (0, 1, 2):
        for c in (0.5, 4.5):
            table.append(("shrink", k, c, ("start_iteration",) if k == 2 else ("shrink",), "shrunk" if k == 2 else None))
    table.append(("start_iteration", 0, 0.5, ("start_iteration", "reflect"), None))
    for phase, k, c, want, acc in table:
        hits, sc = run(phase, k, dict(base, **{}) | {new: c})
        where_ = "%s/%s" % (c0, phase)
        if not hits:
            rep.unk("transition", where_, "no path found in phase %s" % phase)
        for p, und in hits:
            amb = bool([f for f in und if not T.contains(f.term, nm.CF or nm.ST) or vague(f.term)]) and \
                len([h for h in hits if h[0].kind == "ret"]) > 2
            if p.kind == "raise":
                rep.check(None if amb else False, "transition", where_, "the solver raises in phase %s" % phase, p.loc, p)
                continue
            fin = final_phase(nm, p)
            got = phase if fin is None else fin
            text = "a point of cost %s in phase %s (simplex costs 1..4, reflected point 2.5, %d points shrunk) leads to phase %s, " \
                "expected %s" % (c, phase, k, got, " or ".join(want))
            rep.check(True if got in want else (None if amb or got == "?" else False), "transition", where_, text, p.loc, p)
            e1 = p.i.export(p.st) or {}
            fs, sh, rf = e1.get("simplex", nm.S), e1.get("shrunk_points", nm.SH), e1.get("reflected_point", nm.R)
            # the number of points never changes
            try:
                size = Model({}, sc).ev(fn("len", fs))
                rep.check(size == 4.0, "simplex-size", where_, "the simplex has %d points instead of %d" % (size, 4), p.loc, p)
            except Exception:
                rep.unk("simplex-size", where_, "the size of %s is not known" % T.show(fs)[:200], p.loc)
            pt = {"new": (nm.P, nm.V), "reflected": (T.item(nm.R, const(0)), refl)}.get(acc)
            if acc is None:
                if phase != "start_iteration":
                    rep.check(True if fs == nm.S else (None if amb or vague(fs) else False), "not-accepted", where_,
                              "the simplex changes although the point is not accepted", p.loc, p)
            elif acc != "shrunk":
                ok = T.contains(fs, ("tuple", pt)) or T.contains(fs, ("list", pt)) or \
                    (acc == "reflected" and any(x in (("append", nm.S, nm.R), ("listcat", nm.S, ("list", (nm.R,))))
                                                for x in T.subterms(fs)))
                rep.check(True if ok else (None if amb or vague(fs) else False), "accepted", where_,
                          "the accepted point (%s) does not enter the simplex" % acc, p.loc, p)
                rep.check(True if sorted_by_cost(nm, fs) else (None if sorted_by_cost(nm, fs) is None or amb else False),
                          "accepted-sorted", where_, "the simplex is not sorted by cost after accepting a point, or not the worst "
                          "one is dropped: %s" % T.show(fs)[:300], p.loc, p)
                rep.check(True if got in ("start_iteration", "reflect") else (None if amb or got == "?" else False),
                          "accepted-restarts", where_, "no new iteration after a point was accepted", p.loc, p)
            else:
                src = [x for x in T.subterms(fs) if x[0] == "elem"]
                ok = any(T.contains(x, nm.SH) and T.contains(x, nm.P) for x in src)
                rep.check(True if ok else (None if vague(fs) or opaque(fs) else False), "shrink-finished", where_,
                          "the shrunk points do not enter the simplex", p.loc, p)
                try:
                    left = Model({}, sc).ev(fn("len", sh))
                    rep.check(left == 0.0, "shrink-finished", where_ + "/reset", "%d shrunk points are kept for the next shrink" % left,
                              p.loc, p)
                except Exception:
                    rep.unk("shrink-finished", where_ + "/reset", "unknown", p.loc)
                rep.check(True if got in ("start_iteration", "reflect") else (None if got == "?" else False), "accepted-restarts",
                          where_, "no new iteration after the shrink", p.loc, p)
            if phase == "shrink" and acc is None:
                try:
                    left = Model({}, sc).ev(fn("len", sh))
                    rep.check(left == k + 1.0 and T.contains(sh, nm.P) and T.contains(sh, nm.V), "shrink-collects", where_,
                              "the shrunk points become %s" % T.show(sh)[:200], p.loc, p)
                except Exception:
                    rep.unk("shrink-collects", where_, "unknown", p.loc)
            elif phase in ("contract_outside", "contract_inside") and got == "shrink":
                rep.check(sh in (nm.SH, ("list", ())), "shrink-collects", where_ + "/start", "the shrink starts with %s" % T.show(sh)[:200],
                          p.loc, p)
            if phase == "reflect" and acc is None:
                rep.check(True if rf in (("tuple", (nm.P, nm.V)), ("list", (nm.P, nm.V))) else
                          (None if vague(rf) else False), "reflected-kept", where_, "the reflected point kept is %s" % T.show(rf)[:200],
                          p.loc, p)
            for key, want_ in (("current_position", nm.P), ("current_values", nm.V)):
                t = e1.get(key)
                rep.check(True if t == want_ else wrong(t), "takes-over", c0 + "/" + key, "%s becomes %s" % (key, T.show(t or NONE)[:200]),
                          p.loc, p)
    # build-up
    for n in (1, 2, 3):
        for s in range(1, n + 1):
            sc = nm.model("build_up", n, 0, s)
            for p in ups:
                ok, und = possible_at(p, sc)
                if not ok:
                    continue
                where_ = c0 + "/build_up"
                if p.kind == "raise":
                    rep.check(None if und else False, "build-up", where_, "the build-up raises", p.loc, p)
                    continue
                fs = (p.i.export(p.st) or {}).get("simplex", nm.S)
                fin = final_phase(nm, p)
                try:
                    size = Model({}, sc).ev(fn("len", fs))
                except Exception:
                    rep.unk("build-up", where_, "the size of %s is not known" % T.show(fs)[:200], p.loc)
                    continue
                rep.check(size == s + 1.0 and T.contains(fs, nm.P) and T.contains(fs, nm.V), "build-up", where_,
                          "during build-up the simplex becomes %s" % T.show(fs)[:300], p.loc, p)
                if s == n:
                    rep.check(True if fin in ("start_iteration", "reflect") else (None if fin == "?" else False), "build-up",
                              where_ + "/complete", "no iteration begins after the simplex is complete", p.loc, p)
                    so = sorted_by_cost(nm, ("popped", fs, const(-1)))
                    rep.check(so, "build-up", where_ + "/sorted", "the complete simplex is not sorted by cost", p.loc, p)


def sorted_by_cost(nm, t):
    """the term drops the last point of a list sorted by increasing cost"""
    if t[0] == "popped" and t[2] in (const(-1), NONE):
        t = t[1]
    elif t[0] == "item" and t[2] == ("slice", NONE, const(-1), NONE):
        t = t[1]
    elif t[0] == "popped":
        return False
    else:
        return None
    while t[0] == "fn" and t[1] == "list":
        t = t[2][0]
    if t[0] != "fn" or t[1] != "sorted":
        return None if vague(t) or opaque(t) else False
    kw = dict(t[3])
    if kw.get("reverse", FALSE) not in (FALSE,):
        return False
    k = kw.get("key")
    if k is None:
        return False
    if k[0] == "keyed":
        e = ("elem", t[2][0])
        good = nm.costs(T.item(e, const(1)))
        if all(x in good for x in k[1:]):
            return True
        return None if any(vague(x) for x in k[1:]) else False
    return True


RULES = {
    "C14": (c14, "Provenance of the data of every estimator update (matched by parameter label), of the returned measurement "
                 "request and of the Newton step, with a case split over missing targets."),
    "C16": (c16, "Typestate of the Kalman reference (value/position) on all paths of update and restart; provenance of the "
                 "filter's arguments."),
    "C27": (c27, "Finite-state abstraction of the Nelder-Mead solver: all paths of update and suggestion, with the phase, the "
                 "number of points and the order of the costs enumerated; successor, simplex and suggestion of each case."),
    "C17": (c17, "Typestate of the finite-difference protocol on all paths of require_measurement and update."),
}

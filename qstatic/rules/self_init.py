"""C44: the self-initialising estimator answers with its Kalman estimator once it exists."""
from .common import *
from .. import terms as T
from ..terms import NONE

CLS = "SelfInitializingKalmanEstimator"


def pick(t, KE, there):
    """t in the case that the Kalman estimator is there / is missing"""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("boolop",) and len(t) == 4 and t[2] == KE:
        if t[1] == "or":
            return KE if there else pick(t[3], KE, there)
        return pick(t[3], KE, there) if there else NONE
    if t[:1] == ("ite",):
        c, neg = t[1], False
        while c[0] == "not":
            c, neg = c[1], not neg
        v = there if c == KE else (not there) if c == T.is_none(KE) else there if c == ("bool", KE) or c == T.truth(KE) else None
        if v is not None:
            return pick(t[2] if v != neg else t[3], KE, there)
    return tuple(pick(x, KE, there) if isinstance(x, tuple) else x for x in t)


def case_of(p, KE):
    d = p.truth(KE)
    if d is None:
        d = p.truth(T.is_none(KE))
        d = None if d is None else not d
    return d


def cases(p, KE):
    d = case_of(p, KE)
    return (True, False) if d is None else (d,)


def word(there):
    return "with" if there else "without"


def c44(ctx):
    rep = ctx.rep
    cls = ctx.prog.cls(CLS)
    i, paths = ctx.run(cls, "update")
    ex = i.export() or {}
    FD, KE = ex.get("finite_difference_estimator"), ex.get("kalman_estimator")
    KA, KGA = ex.get("kalman_arguments"), ex.get("kalman_gradient_args")
    if FD is None or KE is None:
        raise AnalysisBroken("the self-initialising estimator does not export its estimators")
    # -- answers
    for name, kind in (("estimate", "method"), ("covariance", "method"), ("require_measurement", "method"), ("current_position", "get")):
        i, ps = ctx.run(cls, name, kind)
        seen = set()
        for p in ps:
            if p.kind != "ret":
                continue
            for there in cases(p, KE):
                con = "%s.%s/%s a Kalman estimator" % (CLS, name, word(there))
                want = KE if there else FD
                r = pick(p.ret, KE, there)
                seen.add(there)
                if kind == "get":
                    ok = r == ("attr", want, name) or r == ("fn", "copy", (("attr", want, name),), ())
                    rep.check(ok or wrong(r, FD, KE, want), "answers", con,
                              "the answer is %s" % T.show(r)[:160], p.loc, p)
                    continue
                while r[0] == "fn" and r[1] in ("copy", "deepcopy") and r[2]:
                    r = r[2][0]
                if r[0] != "mcall":
                    rep.check(None if vague(r) else False, "answers", con, "the answer %s is not that of an estimator" % T.show(r)[:160],
                              p.loc, p)
                    continue
                rep.check(True if r[1] == want else (False if r[1] in (FD, KE) else None if vague(r[1]) else False), "answers", con,
                          "%s answers instead of %s" % (T.show(r[1])[:80], T.show(want)), p.loc, p)
                rep.check(r[2] == name, "answers", con + "/question", "%s is asked instead" % r[2], p.loc, p)
                if name == "require_measurement":
                    f = ctx.prog.method(cls, name)
                    own = [("param", x) for x in f.params()[0][1:3]]
                    kw = dict(r[4])
                    for n, (par, key) in enumerate(zip(own, ("gates", "tuned_jacobian"))):
                        a = r[3][n] if n < len(r[3]) else kw.get(key)
                        rep.check(a == par if a is None or not vague(a) else None, "question", con + "/" + key,
                                  "%s of the question is not passed on" % key, p.loc, p)
        if i is not None:
            for there in (True, False):
                if there not in seen:
                    rep.bad("answers", "%s.%s/%s a Kalman estimator" % (CLS, name, word(there)), "there is no answer", None) \
                        if all(p.kind == "raise" for p in ps) else rep.unk("answers", "%s.%s/%s" % (CLS, name, word(there)), "no path")
    # -- positions and restarts reach the active estimator
    for name, kind in (("current_position", "set"), ("change_position", "method"), ("restart", "method")):
        i, ps = ctx.run(cls, name, kind)
        for p in ps:
            if p.kind != "ret":
                continue
            par = None
            for there in cases(p, KE):
                con = "%s.%s/%s a Kalman estimator" % (CLS, name, word(there))
                want = KE if there else FD
                got = []
                for e in p.events:
                    recv = None if e.recv is None else pick(e.recv, KE, there)
                    if kind == "set" and e.kind == "store" and recv is not None and e.name == name:
                        got.append((recv, e.val if hasattr(e, "val") else None, e))
                    elif kind != "set" and e.kind == "call" and e.name == name and recv is not None:
                        got.append((recv, e.arg(0, "new_position"), e))
                mine = [g for g in got if g[0] == want]
                unclear = [g for g in got if g[0] not in (FD, KE)]
                rep.check(bool(mine) or (None if unclear else False), "reaches", con, "%s is not handed to %s" %
                          ("the position" if name != "restart" else "the restart", T.show(want)), p.loc, p)
                for recv, v, e in mine:
                    if v is not None:
                        rep.check(v[0] == "param" or (v[0] == "fn" and v[1] in ("copy", "deepcopy") and v[2][0][0] == "param") or
                                  (None if vague(v) or T.contains(v, ("param",)) else None), "reaches", con + "/position",
                                  "another position is handed on", e.loc, p)
    # -- the Kalman estimator is made once, for the gates of the gradient, with the given arguments
    con = CLS + ".update"
    for p in paths:
        if p.kind != "ret":
            continue
        there = case_of(p, KE)
        fin = (p.i.export(p.st) or {}).get("kalman_estimator")
        if there is None:
            a, b = pick(fin, KE, True), pick(fin, KE, False)
            rep.check(True if a == KE else None, "made-once", con, "an existing Kalman estimator is replaced", p.loc, p)
            continue
        if there:
            rep.check(is_value(p, fin, KE), "made-once", con, "an existing Kalman estimator is replaced by %s" % T.show(fin)[:120], p.loc, p)
            continue
        if fin is None or fin[0] != "new" or len(fin) < 4:
            continue
        kw = dict(fin[3])
        args = positional(ctx, fin, "KalmanGradientEstimator")
        kw = dict(args, **kw)
        f = ctx.prog.method(cls, "update")
        pos = ("param", f.params()[0][1])
        cp = kw.get("current_position")
        est = [x for x in T.subterms(fin) if x[0] == "mcall" and x[1] == FD and x[2] == "estimate"]
        if cp is not None:
            full = cp == pos or cp == ("fn", "copy", (pos,), ())
            by = any(T.contains(cp, x) for x in est)
            rep.check(False if full else (by or None), "own-gates", con, "the Kalman estimator starts at the position of all gates, not of "
                      "those of the gradient", p.loc, p)
        for what, term, holder in (("kalman_arguments", KA, kw), ("kalman_gradient_args", KGA, None)):
            if term is None:
                continue
            if holder is None:
                kg = kw.get("kalman_gradient")
                holder = dict(kg[3]) if kg is not None and kg[0] == "new" and len(kg) > 3 else {}
                whole = kg
            else:
                whole = fin
            star = holder.get("**")
            if star is not None:
                rep.check(True if T.contains(star, term) else (None if vague(star) else False), "arguments", con + "/" + what,
                          "the stored arguments are not passed on", p.loc, p)
            else:
                rep.check(None if whole is None or T.contains(whole, term) or vague(whole) else False, "arguments", con + "/" + what,
                          "the stored arguments are not passed on", p.loc, p)
    # -- construction from scratch
    if ctx.prog.method(cls, "from_scratch") is not None:
        i, ps = ctx.run(cls, "from_scratch")
        f = ctx.prog.method(cls, "from_scratch")
        pars = set(f.params()[0])
        for p in ps:
            r = p.ret
            con = CLS + ".from_scratch"
            if p.kind != "ret" or r is None or r[0] != "new":
                continue
            kw = dict(positional(ctx, r, CLS), **dict(r[3]))
            fd = kw.get("finite_difference_estimator")
            ka = kw.get("kalman_arguments")
            if fd is not None and fd[0] == "new":
                fk = dict(positional(ctx, fd, "FiniteDifferencesGradientEstimator"), **dict(fd[3]))
                for k in ("current_position", "epsilon", "symmetric"):
                    if k in pars:
                        v = fk.get(k)
                        rep.check(same(v, ("param", k)), "scratch", con + "/" + k, "%s of the finite differences is %s" %
                                  (k, "missing" if v is None else T.show(v)[:100]), p.loc, p)
            if ka is not None and ka[0] == "dict":
                kd = {k[1]: v for k, v in ka[1] if k[0] == "const"}
                for k in ("maximum_covariance", "epsilon"):
                    if k in pars:
                        v = kd.get(k)
                        rep.check(same(v, ("param", k)), "scratch", con + "/kalman/" + k, "%s of the Kalman estimator is %s" %
                                  (k, "missing" if v is None else T.show(v)[:100]), p.loc, p)
    rep.need("answers", 8)
    rep.need("question", 4)
    rep.need("reaches", 6)
    rep.need("made-once", 1)
    rep.need("own-gates", 1)
    rep.need("arguments", 2)
    rep.need("scratch", 5)


def same(v, want):
    if v is None:
        return False
    if v == want or (v[0] == "fn" and v[1] in ("copy", "deepcopy") and v[2] and v[2][0] == want):
        return True
    return None if T.contains(v, want) or vague(v) else False


def wrong(r, FD, KE, want):
    other = KE if want == FD else FD
    return False if T.contains(r, other) and not T.contains(r, want) else (None if vague(r) or T.contains(r, want) else False)


def positional(ctx, new, name):
    """keyword names of the positional arguments of a constructor call"""
    try:
        f = ctx.prog.method(ctx.prog.cls(name), "__init__")
    except AnalysisBroken:
        return {}
    if f is None or len(new) < 3:
        return {}
    return dict(zip(f.params()[0][1:], new[2]))


RULES = {
    "C44": (c44, "Every method of the self-initialising estimator is evaluated symbolically with and without a Kalman estimator: estimate, covariance, require_measurement (with the caller's gates and jacobian) and position come from the Kalman estimator if it exists and from the finite differences otherwise; positions and restarts reach the active one; update creates the Kalman estimator only if there is none, for the gates of the gradient, with the stored arguments; from_scratch passes each of its arguments on under its name."),
}

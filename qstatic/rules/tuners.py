"""C10-C13, C31: parameter tuners, rescaling and the hierarchy's tuned parameters."""
import itertools
from .common import *
from .. import terms as T
from ..orders import Model, NaN
from ..terms import const, fn, TRUE, FALSE, NONE


class Tuner:
    def __init__(self, ctx, cls):
        self.ctx, self.rep, self.cls, self.name = ctx, ctx.rep, cls, cls.name
        f = ctx.prog.method(cls, "is_tuned")
        self.volt = ("param", f.params()[0][1])
        self.i, self.paths = ctx.run(cls, "is_tuned", opaque=("evaluate",))
        if self.i is None:
            raise AnalysisBroken("%s.is_tuned could not be analysed" % cls.name)
        i = self.i
        self.export = i.export() or {}
        self.solver = i.initial("solver")
        self.last = i.initial("last_voltages")
        self.failed = i.initial("last_evaluation_failed")
        self.tuned = i.initial("tuned_voltages")
        self.good = self.export.get("evaluatable_voltages")
        self.target = i.initial("target")
        self.queue = self.export.get("number_queued_steps")
        lp = i.initial("last_parameters_and_variances")
        self.lastpar = lp[1][0] if lp[0] == "tuple" else None
        labels = [("attr", self.target, "index")]
        if self.lastpar is not None:
            labels.append(T.index_of(self.lastpar))
        self.labels = labels

    def results(self, p):
        return [e for e in p.calls("evaluate") if e.recv == SELF]

    def is_result(self, t, e):
        """t is the value series of this evaluation, possibly restricted to the relevant parameters"""
        v = T.item(e.res, const(0))
        t = T.strip_values(t)
        if t == v:
            return True
        if t[0] == "item" and t[1] == v and t[2] in self.labels:
            return True
        return t[0] == "fn" and t[1] == "copy" and self.is_result(t[2][0], e)

    def nan(self, p, e, facts=None):
        """did this path find a NaN in the result of evaluation e? True / False / None (not looked)"""
        for f in (facts if facts is not None else p.facts):
            t = f.term
            if t[0] == "fn" and t[1] == "any" and t[2][0][0] == "fn" and t[2][0][1] == "isna" and \
                    self.is_result(t[2][0][2][0], e):
                return f.val
            # any( isna(values) or isna(variances) )
            if t[0] == "fn" and t[1] == "any" and t[2][0][0] == "or" and not f.val:
                for x in t[2][0][1]:
                    if x[0] == "fn" and x[1] == "isna" and self.is_result(x[2][0], e):
                        return False
        return None

    def weak_nan(self, t, e):
        """all(isna(values)): does not find a single NaN"""
        if t[0] != "fn" or t[1] not in ("any", "all"):
            return False
        x = t[2][0]
        if t[1] == "any":
            if x[0] != "not":
                return False
            x = x[1]
        return x[0] == "fn" and x[1] == "isna" and self.is_result(x[2][0], e)

    def nan_vague(self, p, e, facts):
        v = T.item(e.res, const(0))
        facts = [f for f in facts if not self.weak_nan(f.term, e)]
        return any(T.contains(f.term, v) and ("isna" in repr(f.term) or opaque_other(f.term, e.res)) for f in facts)

    def queued(self, p, facts=None):
        if self.queue is None:
            return False
        st = p.st
        if facts is not None:
            st = p.st.copy()
            st.facts = facts
        d = p.i.decide(st, T.cmp("==", self.queue, const(0)))
        if d is None and p.i.decide(st, T.cmp(">", self.queue, const(0))) is True:
            return True
        if d is None and p.i.decide(st, T.cmp(">", self.queue, const(0))) is False:
            return False
        return None if d is None else not d


def opaque_other(t, known):
    """t contains an opaque call other than (parts of) the known result"""
    t2 = T.replace(t, known, ("param", "#known"))
    return opaque(t2)


def tuners(ctx):
    out = []
    for c in ctx.prog.subclasses("ParameterTuner"):
        f = ctx.prog.method(c, "is_tuned")
        if f is None or only_not_implemented(f):
            continue
        out.append(Tuner(ctx, c))
    if len(out) < 2:
        raise AnalysisBroken("fewer than two parameter tuners found")
    return out


def only_not_implemented(f):
    import ast
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise)


def changed_list(p, attr, init):
    """value of a recorded list at the end of the path, None if unchanged"""
    f = p.final(attr) if isinstance(attr, str) else attr
    return None if f == init else f


def last_of(lst):
    return T.item(lst, const(-1))


def export_final(p, key):
    e = p.i.export(p.st)
    return None if e is None else e.get(key)


def recorded(p, final, init, v):
    """is v appended to the list? True / False / None"""
    if final == init:
        return False
    if final is None:
        return None
    if T.contains(final, v):
        return True
    return None if vague(final) else False


def c10(ctx):
    rep = ctx.rep
    for t in tuners(ctx):
        c0 = t.name + ".is_tuned"
        for p in t.paths:
            ev = t.results(p)
            if p.kind == "raise":
                for e in ev:
                    if t.nan(p, e) is True:
                        rep.bad("failed-reported", c0, "a NaN result raises instead of being reported as a failure", p.loc, p)
                continue
            st = [t.nan(p, e) for e in ev]
            upd = p.calls("update_after_step")
            for u in upd:
                k = p.index(u)
                done = [e for e in ev if p.index(e) < k]
                for e in done:
                    s = t.nan(p, e, p.facts_before(u))
                    if s is None and t.nan_vague(p, e, p.facts_before(u)):
                        rep.unk("solver-guard", c0, "NaN check not interpretable", u.loc)
                    else:
                        rep.check(s is False, "solver-guard", c0, "the solver is updated %s" % (
                            "with a NaN" if s else "without a NaN check of the %s" % ("result")), u.loc, p)
            fin_failed = p.final("last_evaluation_failed")
            fin_tuned = p.final("tuned_voltages")
            fin_good = export_final(p, "evaluatable_voltages")
            lv = p.final("last_voltages")
            rep.check(is_value(p, lv, t.volt), "failed-voltages", c0, "last_voltages is %s after an evaluation at the "
                      "given voltages" % T.show(lv), p.loc, p)
            if any(s is True for s in st):
                rep.check(is_value(p, p.ret, FALSE), "failed-not-tuned", c0, "a failed evaluation is reported as tuned",
                          p.loc, p)
                rep.check(is_value(p, fin_failed, TRUE), "failed-marked", c0, "a failed evaluation is not marked", p.loc, p)
                rep.check(not upd, "failed-no-update", c0, "the solver is updated after a failed evaluation", p.loc, p)
                rep.check(not_(recorded(p, fin_tuned, t.tuned, t.volt)), "failed-not-recorded", c0 + "/tuned",
                          "the failed voltages are recorded as tuned", p.loc, p)
                if t.good is not None and fin_good is not None:
                    # voltages of an earlier successful evaluation on the same path do not count here
                    rep.check(not_(recorded(p, fin_good, t.good, t.volt)), "failed-not-recorded", c0 + "/evaluatable",
                              "the failed voltages are recorded as evaluatable", p.loc, p)
            elif ev and all(s is False for s in st):
                rep.check(is_value(p, fin_failed, FALSE), "success-clears", c0, "the failure mark is %s after a successful "
                          "evaluation" % T.show(fin_failed), p.loc, p)
            elif ev:
                vg = all(s is not None or t.nan_vague(p, e, p.facts) for s, e in zip(st, ev))
                rep.check(None if vg else False, "nan-checked", c0, "a result is not checked for NaN", p.loc, p)
        # recovery
        c1 = t.name + ".get_next_voltages"
        i, paths = ctx.run(t.cls, "get_next_voltages")
        failed, last, tuned = i.initial("last_evaluation_failed"), i.initial("last_voltages"), i.initial("tuned_voltages")
        ex = i.export() or {}
        good = ex.get("evaluatable_voltages")
        uses_good = any(recorded(p, export_final(p, "evaluatable_voltages"), t.good, t.volt) for p in t.paths) \
            if good is not None else False
        pool = [good] if uses_good else [x for x in (tuned,) if x is not None]
        half = const(0.5)
        for p in paths:
            if p.kind != "ret":
                continue
            d = p.truth(failed)
            sug = p.calls("suggest_next_position")
            if d is True:
                rep.check(not sug, "recovery-no-solver", c1, "the solver is consulted after a failed evaluation", p.loc, p)
                want = [T.mul(half, T.add(last_of(x), last)) for x in pool]
                ok = p.ret in want
                rep.check(True if ok else (None if opaque(p.ret) and T.contains(p.ret, last) and
                                           any(T.contains(p.ret, x) for x in pool) else False), "recovery-midpoint", c1,
                          "the suggestion after a failed evaluation is %s, expected %s" % (T.show(p.ret), T.show(want[0])),
                          p.loc, p)
            elif d is None:
                rep.bad("recovery-midpoint", c1, "the failure mark is ignored", p.loc, p)
            else:
                rep.check(len(sug) == 1, "suggestion", c1, "the solver is asked %d times" % len(sug), p.loc, p)
    for r in ("solver-guard", "failed-marked", "success-clears", "recovery-midpoint"):
        rep.need(r, 2)


def not_(x):
    return None if x is None else not x


def cheap_flag(ctx, t, e):
    """True/False: cheap or expensive evaluation"""
    f = ctx.prog.method(t.cls, "evaluate")
    pos, kwonly, defaults, va, kwa = f.params()
    a = e.kw.get("cheap")
    if a is None and "cheap" in pos:
        k = pos.index("cheap") - 1
        a = e.args[k] if k < len(e.args) else None
        if a is None and "cheap" in defaults:
            import ast
            try:
                a = const(ast.literal_eval(defaults["cheap"]))
            except Exception:
                a = None
    return None if a is None or not T.is_bool_const(a) else a[1]


def c11(ctx):
    rep = ctx.rep
    for t in tuners(ctx):
        dot = ctx.prog.method(t.cls, "evaluate").params()[0].count("cheap") > 0
        (c11_dot if dot else c11_subset)(ctx, t)
    rep.need("verdict", 2)
    rep.need("recorded", 2)


def record_check(rep, t, p, c0):
    """recorded as tuned exactly when tuned"""
    v = p.truth(p.ret)
    r = recorded(p, p.final("tuned_voltages"), t.tuned, t.volt)
    if v is None or r is None:
        rep.unk("recorded", c0, "verdict %s" % T.show(p.ret), p.loc)
    else:
        rep.check(r == v, "recorded", c0, "the voltages are %srecorded as tuned although the verdict is %s" % (
            "" if r else "not ", v), p.loc, p)


def verdicts(rep, t, paths, model, skip, c0, rule, want, text, what=lambda p: p.truth(p.ret)):
    """every path compatible with the model must give the wanted outcome"""
    got = set()
    und = False
    site = None
    for p in paths:
        ok, u = model.holds([f for f in p.facts if not skip(f)])
        if not ok:
            continue
        if u:
            und = True
        v = what(p)
        got.add(v)
        if v != want:
            site = p
    if got == {want}:
        return True
    if not got:
        return None
    if und or None in got:
        return None
    rep.bad(rule, c0, text, site.loc, site)
    return False


def c11_subset(ctx, t):
    rep = ctx.rep
    c0 = t.name + ".is_tuned"
    D, TOL = T.item(t.target, const("desired")), T.item(t.target, const("tolerance"))
    paths = [p for p in t.paths if p.kind == "ret" and t.results(p) and t.nan(p, t.results(p)[0]) is not True]
    if not paths:
        raise AnalysisBroken("%s: no successful evaluation" % c0)
    n = und = 0
    cases = list(itertools.product((NaN, -5.0, 5.0), (-1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5), (NaN, 0.5, 1.0)))
    groups = {}
    for p in paths:
        groups.setdefault(t.results(p)[0].res, []).append(p)
    for res, ps in groups.items():
        V = T.item(res, const(0))

        def model(cs):
            vs = [(5.0 if d != d else d) + off for d, off, _ in cs]
            vecs = {D: [c[0] for c in cs], TOL: [c[2] for c in cs], V: vs}
            if t.lastpar is not None:
                # the stored values are the evaluated ones restricted to the relevant parameters
                vecs[T.item(V, T.index_of(t.lastpar))] = vs
            return Model(vecs, n=len(cs))

        def elem_ok(c):
            d, off, tol = c
            return d != d or tol != tol or abs(off) < tol
        skip = lambda f: not (T.contains(f.term, D) or T.contains(f.term, TOL) or T.contains(f.term, V)) or \
            (f.term[0] in ("isna",)) or f.loops
        decided = 0
        for c in cases:
            want = elem_ok(c)
            n += 1
            r = verdicts(rep, t, ps, model([c]), skip, c0, "verdict", want,
                         "target %s, measured value %s away, tolerance %s: the group must be %s" % (
                             num(c[0]), num(c[1]), num(c[2]), "tuned" if want else "not tuned"))
            decided += r is not None
            if r is False:
                break
        else:
            # two parameters: all of them count
            for c, d in itertools.product(((5.0, 0.5, 1.0), (5.0, 1.5, 1.0), (NaN, 1.5, 1.0), (5.0, 1.0, 1.0)), repeat=2):
                want = elem_ok(c) and elem_ok(d)
                n += 1
                r = verdicts(rep, t, ps, model([c, d]), skip, c0, "verdict", want,
                             "two parameters, one %s and one %s tolerance: the group must be %s" % (
                                 "within" if elem_ok(c) else "out of", "within" if elem_ok(d) else "out of",
                                 "tuned" if want else "not tuned"))
                decided += r is not None
                if r is False:
                    break
        if decided == n:
            rep.ok("verdict", c0, ps[0].loc, "%d order types" % n)
        elif not any(k[0] == "verdict" for k in rep.bad_):
            rep.unk("verdict", c0, "the verdict is not a comparison of target, value and tolerance", ps[0].loc)
    rep.notes.append("%s: %d order types of target, value and tolerance" % (c0, n))
    for p in t.paths:
        if p.kind == "ret":
            record_check(rep, t, p, c0)


def num(x):
    return "missing" if x != x else "%g" % x


def c11_dot(ctx, t):
    rep = ctx.rep
    c0 = t.name + ".is_tuned"
    MIN, COST = T.item(t.target, const("minimum")), T.item(t.target, const("cost_threshold"))
    n = 0
    ok = True
    pairs = [(v, m, c) for v in (-1.0, 0.0, 1.0) for m in (NaN, 0.0) for c in (NaN, -1.0, 0.0, 1.0)]
    two = [(0.5, 0.0, 0.0), (-0.5, 0.0, 0.0), (-0.5, 0.0, -1.0), (0.5, 0.0, 1.0)]
    cases = [[x] for x in pairs] + [list(x) for x in itertools.product(two, repeat=2)]
    first = {}
    for p in t.paths:
        ev = t.results(p)
        if p.kind != "ret" or not ev:
            continue
        if cheap_flag(ctx, t, ev[0]) is False:
            rep.bad("cheap-first", c0, "the expensive measurement is made first", ev[0].loc, p)
        if t.nan(p, ev[0]) is True:
            continue
        first.setdefault(ev[0].res, []).append(p)
    if not first:
        raise AnalysisBroken("%s: no evaluation found" % c0)
    for res, ps in first.items():
        V = T.item(res, const(0))
        skip = lambda f: not (T.contains(f.term, MIN) or T.contains(f.term, COST)) or f.loops
        exp = lambda p: any(cheap_flag(ctx, t, e) is False for e in t.results(p))
        upd = lambda p: bool(p.calls("update_after_step"))
        decided = 0
        for cs in cases:
            tuned = not any(v <= m for v, m, c in cs)
            costly = not tuned and any(v <= c for v, m, c in cs)
            model = Model({MIN: [x[1] for x in cs], COST: [x[2] for x in cs], V: [x[0] for x in cs]}, n=len(cs))
            txt = "; ".join("value %g, minimum %s, cost threshold %s" % (v, num(m), num(c)) for v, m, c in cs)
            r1 = verdicts(rep, t, ps, model, skip, c0, "verdict", tuned, txt + ": must be %s" % (
                "tuned" if tuned else "not tuned"))
            r2 = verdicts(rep, t, ps, model, skip, c0, "expensive", costly, txt + ": the expensive measurement must%s be made"
                          % ("" if costly else " not"), exp)
            # a failing expensive measurement is not handed to the solver
            fine = [p for p in ps if not any(t.nan(p, e) is True for e in t.results(p))]
            r3 = verdicts(rep, t, fine, model, skip, c0, "solver-update", not tuned, txt + ": the solver must%s be updated" % (
                " not" if tuned else ""), upd)
            n += 1
            decided += (r1 is not None) and (r2 is not None) and (r3 is not None)
            if False in (r1, r2, r3):
                ok = False
                break
        if ok and decided == n:
            for r in ("verdict", "expensive", "solver-update"):
                rep.ok(r, c0, ps[0].loc, "%d order types" % n)
        elif ok:
            rep.unk("verdict", c0, "%d of %d order types decided" % (decided, n), ps[0].loc)
    rep.notes.append("%s: %d order types of value, minimum and cost threshold" % (c0, n))
    for p in t.paths:
        if p.kind == "ret":
            record_check(rep, t, p, c0)
    # what cheap and expensive means
    i, paths = ctx.run(t.cls, "evaluate")
    cheap, costly = i.initial("cheap_evaluators"), i.initial("expensive_evaluators")
    strip = lambda x: T._strip_set(x)
    cheap, costly = strip(cheap), strip(costly)
    for p in paths:
        if p.kind != "ret":
            continue
        flag = p.truth(("param", "cheap"))
        used = [e for e in p.calls("evaluate")]
        if not used:
            continue
        for e in used:
            if flag is None:
                continue
            want, other = (cheap, costly) if flag else (costly, cheap)
            okk = T.contains(e.recv, want) and not T.contains(e.recv, other)
            rep.check(True if okk else (None if vague(e.recv) else False), "evaluator-set", "%s.evaluate/%s" % (
                t.name, "cheap" if flag else "expensive"), "evaluates %s" % T.show(e.recv), e.loc, p)
    rep.need("evaluator-set", 2)


def c12(ctx):
    rep = ctx.rep
    found = 0
    for t in tuners(ctx):
        if "maximal_step_size" not in t.export:
            continue
        found += 1
        c0 = t.name + ".is_tuned"
        for p in t.paths:
            if p.kind != "ret":
                continue
            ev = t.results(p)
            if ev:
                q = t.queued(p, p.facts_before(ev[0]))
                rep.check(q is False, "queued-no-measurement", c0, "a measurement is made although steps are queued",
                          ev[0].loc, p)
            else:
                q = t.queued(p)
                rep.check(True if q is True else (None if any(opaque(f.term) for f in p.facts) else False),
                          "measures", c0, "no measurement although no step is queued", p.loc, p)
                rep.check(is_value(p, p.ret, FALSE), "queued-verdict", c0, "tuned while steps are queued", p.loc, p)
                pos = [e for e in p.events if (e.kind == "store" and e.name == "current_position" or e.kind == "call" and
                                               "position" in e.name) and e.recv == t.solver and t.volt in e.args]
                rep.check(bool(pos), "queued-position", c0, "the solver's position is not updated while steps are queued",
                          p.loc, p)
                rep.check(not p.calls("update_after_step"), "queued-no-update", c0,
                          "the solver is updated without a measurement", p.loc, p)
            fq = export_final(p, "number_queued_steps")
            rep.check(True if fq == t.queue else (None if fq is None or vague(fq) else False), "queue-kept", c0,
                      "the number of queued steps changes to %s during an evaluation" % T.show(fq or NONE), p.loc, p)
        step_rules(ctx, t)
    if not found:
        raise AnalysisBroken("no step-limited tuner found")
    rep.need("queued-position")
    rep.need("limited-step")
    rep.need("free-step")


def simple(t):
    """no case distinction hidden in the term"""
    return not any((x[0] == "fn" and x[1] in ("min", "max", "where", "clip", "mask", "sign")) or x[0] == "ite"
                   for x in T.subterms(t))


def step_rules(ctx, t):
    rep = ctx.rep
    c1 = t.name + ".get_next_voltages"
    i, paths = ctx.run(t.cls, "get_next_voltages")
    ex = i.export() or {}
    failed, last = i.initial("last_evaluation_failed"), i.initial("last_voltages")
    MAX, Q, N = ex["maximal_step_size"], ex["number_queued_steps"], ex.get("maximal_step_number")
    for p in paths:
        if p.kind != "ret" or p.truth(failed) is True:
            if p.kind == "ret":
                fq = export_final(p, "number_queued_steps")
                rep.check(True if fq == Q or fq == const(0) else (None if fq is None or vague(fq) else False),
                          "recovery-queue", c1, "the recovery step changes the queue to %s" % T.show(fq or NONE), p.loc, p)
            continue
        sug = p.calls("suggest_next_position")
        if len(sug) != 1:
            rep.bad("asks-solver", c1, "the solver is asked %d times" % len(sug), p.loc, p)
            continue
        S = sug[0].res
        fulls = [("setitem", last, T.index_of(S), S)]
        full = fulls[0]
        step = T.sub(full, last)
        norms = [fn("norm", step)]
        # order of norm and limit on this path
        lim = None
        for nt in norms:
            p0 = T.sub(MAX, nt)
            st = p.st
            lt, le = p.i.decide(st, T.cmp("<", MAX, nt)), p.i.decide(st, T.cmp("<=", MAX, nt))
            ge, gt = p.i.decide(st, T.cmp("<=", nt, MAX)), p.i.decide(st, T.cmp("<", nt, MAX))
            if lt is True or le is True:
                lim = True
            elif lt is False or le is False:
                lim = False          # includes a missing (NaN) limit
            elif ge is False or gt is False:
                lim = "nan"          # exceeds or limit missing
            elif ge is True or gt is True:
                lim = "fits"
        fq = export_final(p, "number_queued_steps")
        q0 = p.i.decide(p.st, T.cmp("==", Q, const(0)))
        if q0 is None:
            pos = p.i.decide(p.st, T.cmp(">", Q, const(0)))
            q0 = None if pos is None else not pos
        r = p.ret
        if lim is None:
            if not simple(r) or opaque_other(r, S) or any(opaque_other(f.term, S) for f in p.facts):
                rep.unk("limited-step", c1, "the suggestion %s has no explicit comparison with the limit" % T.show(r)[:200], p.loc)
            else:
                rep.bad("limited-step", c1, "the suggestion %s is not compared with the maximal step size" % T.show(r), p.loc, p)
            continue
        if lim == "nan":
            rep.bad("limited-step", c1, "a missing limit is treated as exceeded", p.loc, p)
            continue
        if lim is True:
            want = T.add(last, T.mul(step, T.div(MAX, norms[0])))
            rep.check(True if r == want else (None if vague(r) or not simple(r) else False), "limited-step", c1,
                      "an exceeding step gives %s instead of the step scaled to the maximal size" % T.show(r), p.loc, p)
            if fq is None:
                rep.unk("countdown", c1, "queue not found", p.loc)
            elif q0 is False:
                rep.check(True if fq == T.sub(Q, const(1)) else (None if vague(fq) else False), "countdown", c1 + "/queued",
                          "the queue goes from %s to %s" % (T.show(Q), T.show(fq)), p.loc, p)
            elif q0 is True:
                a = T.add(fq, const(1))
                if a[0] == "fn" and a[1] == "min" and N in a[2]:
                    rep.ok("countdown", c1 + "/new", p.loc)
                elif p.i.decide(p.st, T.cmp("<", a, N)) is True or p.i.decide(p.st, T.cmp("<=", a, N)) is True or \
                        a == N or any(T.contains(f.term, N) for f in p.facts) and N != a:
                    rep.ok("countdown", c1 + "/new", p.loc)
                else:
                    rep.check(None if vague(fq) else False, "countdown", c1 + "/new",
                              "a new queue of %s is not bounded by the configured maximum and counted down" % T.show(fq),
                              p.loc, p)
            else:
                rep.check(None if vague(fq) else False, "countdown", c1, "the queue becomes %s whether or not steps are "
                          "queued" % T.show(fq), p.loc, p)
        else:
            ok = r in fulls or r == T.add(last, step)
            rep.check(True if ok else (None if vague(r) or not simple(r) else False), "free-step", c1,
                      "a step within the limit gives %s instead of the solver's suggestion" % T.show(r), p.loc, p)
            rep.check(None if fq is None else (is_value(p, fq, const(0)) if fq != Q or q0 is not True else True), "queue-dropped",
                      c1, "the queue is %s although the remaining step fits" % T.show(fq or NONE), p.loc, p)
        # the solver is not asked from a copy that aliases the recorded voltages
        lv = p.final("last_voltages")
        rep.check(True if lv == last else (None if vague(lv) else False), "last-kept", c1,
                  "computing the next voltages changes the recorded last voltages to %s" % T.show(lv), p.loc, p)


def monomial_ratio(a, b):
    """a / b as a single monomial {atom: exp} with coefficient, or None"""
    r = T.div(a, b)
    p = T.to_poly(r)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    return dict(m), c


def c13(ctx):
    rep = ctx.rep
    solver = ctx.prog.cls("Solver")
    factors = {}
    for c in ctx.prog.subclasses("Solver"):
        for name, sign in (("rescale_values", -1), ("descale_values", 1)):
            f = ctx.prog.method(c, name)
            if f is None:
                raise AnalysisBroken("%s.%s not found" % (c.name, name))
            if c is not solver and f.cls is not c:
                continue
            i, paths = ctx.run(c, name)
            pos = f.params()[0]
            col = T.item(i.initial("target"), const("rescaling_factor"))
            for p in paths:
                if p.kind != "ret":
                    rep.bad("factor", name, "raises", p.loc, p)
                    continue
                for k, e in ((pos[1], sign), (pos[2], 2 * sign)):
                    old = ("param", k)
                    new = i.snap(p.st, i.param_refs[k])
                    q = "%s.%s/%s" % (c.name, name, k)
                    if new == old:
                        rep.bad("factor", q, "%s does not change the %s in place" % (name, k), p.loc, p)
                        continue
                    if new[0] == "setitem" and new[1] == old and new[2] in [T.index_of(("param", x)) for x in pos[1:3]]:
                        new, old = new[3], T.item(old, new[2])
                    mr = monomial_ratio(new, old)
                    if mr is None or len(mr[0]) != 1:
                        rep.check(None if vague(new) or not T.contains(new, col) else False, "factor", q,
                                  "%s becomes %s" % (k, T.show(new)), p.loc, p)
                        continue
                    (atom, ex), = mr[0].items()
                    ok = T.contains(atom, col)
                    rep.check(ex == e and mr[1] == 1 and ok, "factor", q,
                              "%s is multiplied by %s^%d, expected the rescaling factor to the power of %d" % (
                                  k, T.show(atom), ex, e), p.loc, p)
                    one = any(x == const(1) for x in T.subterms(atom))
                    rep.check(one, "default-one", q, "a parameter without rescaling factor is not left alone", p.loc, p)
                    factors.setdefault(c.name, set()).add(atom[1] if atom[0] == "item" else atom)
    rep.need("factor", 4)
    for t in tuners(ctx):
        c0 = t.name + ".is_tuned"
        # rescaling inside evaluate counts as well
        inner = 0
        i, paths = ctx.run(t.cls, "evaluate")
        inner = max([len(p.calls("rescale_values")) for p in paths] or [0])
        for p in t.paths:
            if p.kind != "ret":
                continue
            for e in t.results(p):
                v, w = T.item(e.res, const(0)), T.item(e.res, const(1))
                rs = [x for x in p.calls("rescale_values") if x.arg(0, "values") == v]
                ds = [x for x in p.calls("descale_values") if x.arg(0, "values") == v]
                n = len(rs) + inner - len(ds)
                others = [x for x in p.calls("rescale_values") if x not in rs]
                if n != 1 and any(T.contains(x.arg(0, "values") or NONE, v) for x in others):
                    rep.unk("rescaled-once", c0, "rescaling of %s" % T.show(others[0].args[0] if others[0].args else NONE),
                            others[0].loc)
                    continue
                rep.check(n == 1, "rescaled-once", c0, "an evaluation result is rescaled %d times" % n, e.loc, p)
                for x in rs:
                    rep.check(x.arg(1, "variances") == w and x.recv == t.solver, "rescaled-with-variances", c0,
                              "values are rescaled together with %s on %s" % (T.show(x.arg(1, "variances") or NONE),
                                                                            T.show(x.recv)), x.loc, p)
                    k = p.index(x)
                    early = [s for s in p.events[:k] if s.kind in ("store", "mutate", "call") and s is not e and
                             not (s.kind == "mutate" and s.recv == v) and
                             any(T.contains(a, e.res) for a in list(s.args) + list(s.kw.values()))
                             and not series_store(s, p, x)]
                    rep.check(not early, "rescaled-first", c0, "a result is used before it is rescaled: %r" % (early[:1],),
                              early[0].loc if early else x.loc, p)
                    fb = [f for f in p.facts_before(x) if T.contains(f.term, v) and not isna_only(f.term)]
                    rep.check(not fb, "rescaled-first", c0, "a result is compared before it is rescaled: %r" % (fb[:1],),
                              x.loc, p)
    rep.need("rescaled-once", 2)
    # solvers do not change what they are given
    for c in ctx.prog.subclasses("Solver"):
        f = ctx.prog.method(c, "update_after_step")
        if only_not_implemented(f):
            continue
        i, paths = ctx.run(c, "update_after_step")
        mine = {i.param_refs[n]: n for n in f.params()[0][1:] if n in i.param_refs}
        bad = False
        for p in paths:
            for e in p.events:
                if e.kind == "mutate" and e.recv_ref is not None:
                    hit = [mine[r] for r in i.roots(e.recv_ref) if r in mine]
                    if hit:
                        bad = True
                        rep.bad("own-copy", c.name + ".update_after_step", "changes the %s it was given (%s)" % (
                            hit[0], e.name), e.loc, p)
        if not bad:
            rep.ok("own-copy", c.name + ".update_after_step", paths[0].loc if paths else None)
    rep.need("own-copy", 3)
    # a solver that turns values into voltages uses the original units
    for c in ctx.prog.subclasses("Solver"):
        if "values_to_position" not in (ctx.prog.method(c, "__init__").params()[0] if ctx.prog.method(c, "__init__") else []):
            continue
        i, paths = ctx.run(c, "update_after_step")
        pos = ctx.prog.method(c, "update_after_step").params()[0]
        v = ("param", pos[2])
        for p in paths:
            if p.kind != "ret":
                continue
            nxt = (p.i.export(p.st) or {}).get("next_position")
            parts = [x[3] for x in T.subterms(nxt) if x[0] == "setitem" and T.contains(x[3], v)] if nxt else []
            if not parts:
                # whether the values reach the position at all is decided by C46
                rep.unk("original-units", c.name, "the values do not reach the next position as a whole", p.loc)
                continue
            src = parts[0]
            while src[0] == "item" or src[0] == "fn" and src[1].lstrip(".") in ("values", "copy", "to_numpy", "aligned") and len(src[2]) == 1:
                src = src[1] if src[0] == "item" else src[2][0]
            mr = monomial_ratio(src, v)
            ok = mr is not None and len(mr[0]) == 1 and list(mr[0].values()) == [1] and \
                T.contains(list(mr[0])[0], T.item(i.initial("target"), const("rescaling_factor")))
            rep.check(True if ok else (None if vague(src) else False), "original-units", c.name,
                      "the next position is taken from %s instead of the descaled values" % T.show(src), p.loc, p)
    rep.need("original-units")


def series_store(s, p, x):
    """the result is only put somewhere that is rescaled itself (a list of results)"""
    return s.kind == "call" and s.name in ("rescale_values", "descale_values")


def isna_only(t):
    return "isna" in repr(t) and t[0] == "fn"


def c31(ctx):
    rep = ctx.rep
    i, paths = ctx.run("Autotuner", "tuned_parameters", "get")
    idx, hier = i.initial("current_tuner_index"), i.initial("tuning_hierarchy")
    for p in paths:
        if p.kind != "ret":
            continue
        t = p.ret
        if t == ("set", ()) or t == fn("set"):
            continue
        tunproj = [x for x in T.subterms(t) if x[0] in ("item", "elem") and x[1] == hier or
                   (x[0] == "elem" and sliced(x[1], hier))]
        c = "Autotuner.tuned_parameters"
        if not tunproj:
            rep.check(None if vague(t) and T.contains(t, hier) else False, "strictly-lower", c,
                      "the result %s does not depend on the groups" % T.show(t), p.loc, p)
            continue
        for x in set(tunproj):
            ok = lower(x, idx, hier, p)
            rep.check(ok, "strictly-lower", c, "parameters of %s are reported, expected exactly the groups below the "
                      "position" % T.show(x), p.loc, p)
        names = target_names(t)
        rep.check(names, "complete-targets", c, "the parameters are not those with a complete target: %s" % T.show(t), p.loc, p)
        acc = accumulated(t, p)
        rep.check(acc, "all-groups", c, "the parameters of the lower groups are not collected: %s" % T.show(t)[:400], p.loc, p)
    rep.need("strictly-lower")
    # handed on by the loop, the tuners and the Newton solver
    i, paths = ctx.run("Autotuner", "iterate", opaque=("ready_to_tune", "time_string", "save_current_status"),
                       opaque_props=("tuned_parameters",))
    want = ("attr", SELF, "tuned_parameters")
    for p in paths:
        for e in p.calls("get_next_voltages"):
            a = e.arg(0, "tuned_parameters")
            rep.check(True if a == want else (None if a is not None and vague(a) else False), "loop-forwards",
                      "Autotuner.iterate", "the group receives %s as tuned parameters" % T.show(a or NONE), e.loc, p)
    rep.need("loop-forwards")
    for t in tuners(ctx):
        f = ctx.prog.method(t.cls, "get_next_voltages")
        par = ("param", f.params()[0][1])
        i, paths = ctx.run(t.cls, "get_next_voltages")
        for p in paths:
            for e in p.calls("suggest_next_position"):
                a = e.arg(0, "tuned_parameters")
                rep.check(True if a == par else (None if a is not None and vague(a) else False), "tuner-forwards",
                          t.name + ".get_next_voltages", "the solver receives %s as tuned parameters" % T.show(a or NONE),
                          e.loc, p)
    rep.need("tuner-forwards", 2)
    newton(ctx)


def sliced(t, hier):
    return t[0] in ("slice", "slice_", "item", "getslice") and T.contains(t, hier) or \
        (t[0] == "fn" and t[1] in ("islice", "slice") and T.contains(t, hier))


def lower(x, idx, hier, p):
    """x = hier[elem of range(0, idx)] or elem of hier[:idx]"""
    if x[0] == "item":
        k = x[2]
        r = None
        if k[0] == "elem":
            r = k[1]
        if r is not None and r[0] == "range":
            a = r[1:]
            if len(a) == 1:
                return a[0] == idx
            if len(a) == 2:
                return a[0] == const(0) and a[1] == idx
            if len(a) == 3:
                one = const(1)
                return a[0] == const(0) and a[1] == idx and a[2] == one or \
                    (a[0] == T.sub(idx, one) and a[1] == const(-1) and a[2] == const(-1))
        if k == ("index", hier) or k[0] == "index":
            return guard_lower(p, k, idx)
        return None if vague(k) else False
    src = x[1]
    if src == hier:
        return guard_lower(p, ("index", hier), idx)
    s = repr(src)
    if src[0] == "item" and src[1] == hier and src[2][0] == "slice":
        lo, hi = src[2][1], src[2][2]
        return (lo in (NONE, const(0))) and hi == idx and (len(src[2]) < 4 or src[2][3] in (NONE, const(1)))
    return None


def guard_lower(p, k, idx):
    for x in p.facts:
        if x.term[0] in ("<0", "<=0") and T.contains(x.term, k) and T.contains(x.term, idx):
            return True if (x.term == T.cmp("<", k, idx) and x.val or x.term == T.cmp("<=", idx, k) and not x.val) else False
    for x in T.subterms(p.ret):
        if x[0] == "comp" and x[4]:
            for c in x[4]:
                if T.contains(c, idx):
                    return c == T.cmp("<", k, idx) or c == T.not_(T.cmp("<=", idx, k))
    return False


def target_names(t):
    """ingredients: names come from the target, incomplete rows are dropped, all-missing columns are ignored first"""
    s = repr(t)
    if "'target'" not in s:
        return None if vague(t) else False
    drop = "dropna" in s or "isna" in s or "notna" in s
    return True if drop else (None if vague(t) else False)


def accumulated(t, p):
    """union over all lower groups"""
    for x in T.subterms(t):
        if x[0] == "fn" and x[1] in ("unionover", "union"):
            return True
        if x[0] == "comp":
            return True
    return None if vague(t) else False


def newton(ctx):
    rep = ctx.rep
    i, paths = ctx.run("NewtonSolver", "suggest_next_position")
    par = ("param", "tuned_parameters")
    ests, target = i.initial("gradient_estimators"), i.initial("target")
    n = 0
    for p in paths:
        for e in p.calls("require_measurement"):
            n += 1
            a = e.arg(1, "tuned_jacobian")
            c = "NewtonSolver.suggest_next_position"
            if a is None:
                rep.bad("newton-forwards", c, "the gradients of the tuned parameters are not handed to the estimators", e.loc, p)
                continue
            comps = [x for x in T.subterms(a) if x[0] == "comp" and T.contains(x, ests)]
            if a == NONE:
                # nothing tuned: only on paths where no gradient was selected
                z = any(f.term[0] == "==0" and f.val and T.contains(f.term, ests) for f in p.facts) or \
                    any(f.val and f.term[0] == "isnone" and f.term[1] == par for f in p.facts) or \
                    any(not f.val and T.contains(f.term, par) for f in p.facts) or \
                    any(f.val and f.term[0] == "==0" for f in p.facts)
                rep.check(True if z else None, "newton-forwards", c, "no tuned gradients are handed on", e.loc, p)
                continue
            ok = None
            for x in comps:
                for cd in x[4]:
                    t = cd[1] if cd[0] == "not" else cd
                    if t[0] == "in" and T.contains(t[2], par) or T.contains(cd, par):
                        ok = cd[0] != "not"
            if ok is None and comps and not vague(a):
                ok = False
            rep.check(ok, "newton-forwards", c, "the jacobian handed on, %s, is not restricted to the tuned parameters" %
                      T.show(a)[:300], e.loc, p)
            if "estimate" not in repr(a):
                rep.bad("newton-forwards", c, "%s is handed on instead of gradients" % T.show(a)[:200], e.loc, p)
    if not n:
        raise AnalysisBroken("NewtonSolver never asks its estimators")


RULES = {
    "C10": (c10, "Path-sensitive dataflow over is_tuned / get_next_voltages of every tuner: NaN branch dominates every solver "
                 "update; final failure mark, verdict and recorded lists per path; recovery term compared in normal form."),
    "C11": (c11, "The verdict conditions of is_tuned are extracted as terms and decided over all order types of value, target, "
                 "tolerance, minimum and threshold including missing ones and ties (finite abstract domain)."),
    "C12": (c12, "Branch order of step norm and limit, suggestion and queue counter of each path of the step-limited tuner in "
                 "polynomial normal form; effects while steps are queued."),
    "C13": (c13, "In-place effect of rescale/descale as monomials in the rescaling factor; number and order of rescaling calls "
                 "per evaluation result on every path of is_tuned; alias analysis of solver updates."),
    "C31": (c31, "Provenance of the tuned-parameter set (range below the position) and of the argument chain loop - tuner - "
                 "solver - estimator."),
}

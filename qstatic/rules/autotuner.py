"""C01-C05: the tuning loop."""
from .common import *
from .. import terms as T
from ..terms import const, TRUE, FALSE, NONE

SET, EVAL, COMP = "set_gate_voltages", "is_tuned", "get_next_voltages"
ACTIONS = {SET: "apply", EVAL: "evaluate", COMP: "compute"}


class Loop:
    """paths of Autotuner.iterate with the roles of its state"""

    def __init__(self, ctx):
        self.ctx, self.rep = ctx, ctx.rep
        self.i, self.paths = ctx.run("Autotuner", "iterate", opaque=("ready_to_tune", "time_string", "high_res_datetime",
                                                                     "tuned_parameters"), opaque_props=("tuned_parameters",))
        i = self.i
        if i is None:
            raise AnalysisBroken("Autotuner.iterate could not be analysed")
        self.idx = i.initial("current_tuner_index")
        self.status = i.initial("current_tuner_status")
        self.pend = i.initial("voltages_to_set")
        self.hier = i.initial("tuning_hierarchy")
        ex = i.export()
        if ex is None or "experiment" not in ex:
            raise AnalysisBroken("Autotuner.to_hdf5 exports no experiment")
        self.exp = ex["experiment"]
        self.path_attr = ex.get("hdf5_storage_path")
        self.done = T.cmp("==", self.idx, T.fn("len", self.hier))
        self.roles = {"position": "current_tuner_index", "evaluation flag": "current_tuner_status",
                      "pending voltages": "voltages_to_set"}

    def actions(self, p):
        return [e for e in p.events if e.kind == "call" and e.name in ACTIONS]

    def ready(self, p):
        for f in p.facts:
            if f.term[0] == "mcall" and f.term[2] == "ready_to_tune":
                return f.val
        return None

    def complete(self, p):
        lo = p.i.decide(p.st, T.cmp("<", self.idx, T.fn("len", self.hier)))
        if lo is not None:
            return not lo
        return p.i.decide(p.st, self.done)

    def pending(self, p):
        d = p.i.decide(p.st, T.is_none(self.pend))
        return None if d is None else not d

    def nan(self, p, v=None):
        return p.i.decide(p.st, T.fn("any", T.fn("isna", v or self.pend)))

    def nan_ingredient(self, p):
        return any(opaque(f.term) and T.contains(f.term, self.pend) and f.term[0] != "mcall" or
                   (f.term[0] in ("call", "mcall") and T.contains(f.term, self.pend)) for f in p.facts)

    def untouched(self, p):
        """nothing stored on the autotuner, set, computed or written on this path"""
        return not stores(p) and not self.actions(p) and not [e for e in p.calls("write")]

    def construct(self, p):
        a = self.actions(p)
        return "iterate/" + ("+".join(ACTIONS[e.name] for e in a) if a else p.kind)


def c01(ctx):
    rep, L = ctx.rep, Loop(ctx)
    for p in L.paths:
        for e in p.calls(SET):
            v = e.arg(0, "new_voltages")
            fb = p.st.copy()
            fb.facts = p.facts_before(e)
            d = p.i.decide(fb, T.fn("any", T.fn("isna", v)))
            if d is False:
                rep.ok("nan-guard", "iterate/apply", e.loc, p.describe())
            elif d is True:
                rep.bad("nan-guard", "iterate/apply", "voltages known to contain NaN reach the experiment", e.loc, p)
            elif v == L.pend and any(f.term[0] in ("call", "mcall") and T.contains(f.term, v) for f in p.facts_before(e)):
                rep.unk("nan-guard", "iterate/apply", "guard on the pending voltages is not interpretable", e.loc)
            else:
                rep.bad("nan-guard", "iterate/apply", "set_gate_voltages(%s) is reached without a check that no voltage "
                        "is NaN" % T.show(v), e.loc, p)
        if L.nan(p) is True:
            if p.kind != "raise":
                rep.bad("nan-raises", "iterate", "an iteration with a NaN among the pending voltages does not raise",
                        p.loc, p)
            elif not L.untouched(p):
                s = (stores(p) + L.actions(p) + p.calls("write"))[0]
                rep.bad("nan-keeps-state", "iterate", "state is changed or saved before the NaN error: %r" % s, s.loc, p)
            else:
                rep.ok("nan-raises", "iterate/raise", p.loc, p.describe())
    rep.need("nan-guard")
    # nobody else applies voltages that were not looked at: the pending voltages are only applied by iterate
    cls = ctx.prog.cls("Autotuner")
    from .gates import closure
    inside = closure(ctx.prog, cls, "iterate")
    for name in list(cls.methods):
        if name in inside or name == "__init__":
            continue
        i, paths = ctx.run("Autotuner", name, opaque=("iterate", "ready_to_tune", "time_string"),
                           opaque_props=("tuned_parameters",))
        for p in paths:
            for e in p.calls(SET):
                v = e.arg(0, "new_voltages")
                d = p.i.decide(p.st, T.fn("any", T.fn("isna", v)))
                rep.check(d is False, "nan-guard-other", name, "sets gate voltages without a NaN check", e.loc, p)


def c02(ctx):
    rep, L = ctx.rep, Loop(ctx)
    for p in L.paths:
        c = L.construct(p)
        acts = L.actions(p)
        for e in acts:
            if e.loops:
                rep.bad("one-action", c, "%s is called in a loop" % e.name, e.loc, p)
            before = p.st.copy()
            before.facts = p.facts_before(e)
            pb = type(p)(p.i, before, p.kind, p.val, p.loc)
            rep.check(L.ready(pb) is True, "guard-ready", c, "%s is reached without a positive readiness check" % e.name,
                      e.loc, p)
            rep.check(L.complete(pb) is False, "guard-complete", c,
                      "%s is reached although tuning may be complete" % e.name, e.loc, p)
            pend, st = L.pending(pb), pb.truth(L.status)
            if e.name == SET:
                rep.check(pend is True, "dispatch", c, "voltages are applied when none are pending", e.loc, p)
                if e.recv != L.exp:
                    rep.bad("dispatch", c, "voltages are set on %s" % T.show(e.recv), e.loc, p)
            else:
                rep.check(pend is False, "dispatch", c, "%s although voltages are pending" % e.name, e.loc, p)
                want = e.name == COMP
                rep.check(st is want, "dispatch", c, "%s although the group was %s evaluated" % (
                    e.name, "not" if want else "already"), e.loc, p)
                cur = T.item(L.hier, L.idx)
                if e.recv != cur:
                    rep.check(None if vague(e.recv) else False, "current-group", c,
                              "%s is called on %s, not on the current group" % (e.name, T.show(e.recv)), e.loc, p)
                else:
                    rep.ok("current-group", c, e.loc)
        if p.kind == "ret":
            rep.check(len(acts) == 1, "one-action", c, "the iteration performs %d actions (%s)" % (
                len(acts), ", ".join(e.name for e in acts) or "none"), p.loc, p)
        elif p.kind == "raise":
            allowed = L.ready(p) is False or L.complete(p) is True or (L.pending(p) is True and L.nan(p) is not False)
            rep.check(allowed, "raises-only-if", c, "an iteration that is ready, not complete and without NaN raises",
                      p.loc, p)
            if L.ready(p) is False or L.complete(p) is True:
                rep.check(L.untouched(p), "guard-first", c,
                          "state is changed, gates are set or the state is saved before the guard raises", p.loc, p)
    for n in ("one-action", "guard-ready", "guard-complete"):
        rep.need(n, 3)
    for n in (SET, EVAL, COMP):
        if not any(e.name == n for p in L.paths for e in L.actions(p)):
            rep.bad("all-actions", n, "no iteration ever performs %s" % n, L.paths[0].loc)


def c03(ctx):
    rep, L = ctx.rep, Loop(ctx)
    one = const(1)
    for p in L.paths:
        acts = L.actions(p)
        if p.kind != "ret" or len(acts) != 1:
            continue
        e = acts[0]
        fin = {r: p.final(a) for r, a in L.roles.items()}
        c = L.construct(p)

        def want(role, value, what):
            ok = is_value(p, fin[role], value)
            if ok is None and False:
                pass
            rep.check(ok, what, c, "%s becomes %s, expected %s" % (role, T.show(fin[role]), T.show(value)), e.loc, p)
        if e.name == SET:
            v = e.arg(0, "new_voltages")
            rep.check(True if v == L.pend else (None if vague(v) else False), "apply-exactly", c,
                      "the experiment receives %s instead of the pending voltages" % T.show(v), e.loc, p)
            want("position", const(0), "apply-bottom")
            want("pending voltages", NONE, "apply-forget")
            f = fin["evaluation flag"]
            rep.check(f == L.status or is_value(p, f, FALSE), "apply-flag", c,
                      "applying voltages sets the evaluation flag to %s" % T.show(f), e.loc, p)
        elif e.name == EVAL:
            verdict = p.truth(e.res)
            rep.check(verdict is not None, "verdict-used", c, "the verdict of the group is ignored", e.loc, p)
            if verdict is None:
                continue
            c += "/tuned" if verdict else "/untuned"
            a = e.arg(0, "voltages")
            ok = a is not None and a[0] == "mcall" and a[1] == L.exp and a[2] == "read_gate_voltages"
            rep.check(True if ok else (None if a is not None and vague(a) else False), "present-voltages", c,
                      "the group is evaluated at %s instead of the present gate voltages" % T.show(a), e.loc, p)
            want("position", T.add(L.idx, one) if verdict else L.idx, "evaluate-position")
            want("evaluation flag", FALSE if verdict else TRUE, "evaluate-flag")
            want("pending voltages", NONE, "evaluate-pending")
        else:
            want("position", L.idx, "compute-position")
            want("evaluation flag", FALSE, "compute-flag")
            v = fin["pending voltages"]
            rep.check(True if v == e.res else (None if vague(v) and T.contains(v, e.res) else False), "compute-pending", c,
                      "pending voltages become %s instead of the group's suggestion" % T.show(v), e.loc, p)
        # an action that raises leaves the loop's state as it was
        k = p.index(e)
        for s in p.events[:k]:
            if s.kind == "store" and s.recv == SELF and s.name not in ("last_save_file",):
                before = p.i.st0
                if s.args and s.args[0] != ("attr", SELF, s.name):
                    for r, a in L.roles.items():
                        if getattr_term(p.i, a) == ("attr", SELF, s.name):
                            rep.bad("state-after-action", c, "%s changes before %s has succeeded" % (r, e.name), s.loc, p)
        rep.ok("state-after-action", c, e.loc)
    for n in ("apply-bottom", "evaluate-position", "compute-pending"):
        rep.need(n)
    # completion
    i, paths = ctx.run("Autotuner", "is_tuning_complete")
    idx, hier = i.initial("current_tuner_index"), i.initial("tuning_hierarchy")
    low, eq = T.cmp("<", idx, T.fn("len", hier)), T.cmp("==", idx, T.fn("len", hier))
    seen = {True: False, False: False}
    for p in paths:
        if p.kind != "ret":
            rep.bad("complete-iff", "is_tuning_complete", "raises", p.loc, p)
            continue
        r = p.truth(p.ret)
        if r is None:
            rep.unk("complete-iff", "is_tuning_complete", T.show(p.ret), p.loc)
            continue
        seen[r] = True
        if r:
            bad = any_state(p, {low: True, eq: False})
            rep.check(not bad, "complete-iff", "is_tuning_complete/True",
                      "tuning counts as complete although the position has not passed the last group", p.loc, p)
        else:
            bad = any_state(p, {eq: True, low: False})
            rep.check(not bad, "complete-iff", "is_tuning_complete/False",
                      "tuning does not count as complete although the position has passed the last group", p.loc, p)
    rep.check(seen[True] and seen[False], "complete-iff", "is_tuning_complete", "constant result", paths[0].loc)


def getattr_term(i, name):
    return i.initial(name)


def any_state(p, facts):
    """is the path compatible with these facts?"""
    for t, v in facts.items():
        d = p.i.decide(p.st, t)
        if d is not None and d != v:
            return False
    return True


def c04(ctx):
    rep = ctx.rep
    for meth in ("restart", "change_targets"):
        i, paths = ctx.run("Autotuner", meth)
        ex = i.export() or {}
        hier = i.initial("tuning_hierarchy")
        for p in paths:
            if p.kind == "raise":
                continue
            for role, attr, v in (("position", "current_tuner_index", const(0)),
                                  ("evaluation flag", "current_tuner_status", FALSE),
                                  ("pending voltages", "voltages_to_set", NONE)):
                f = p.final(attr)
                rep.check(is_value(p, f, v), "reset", "%s/%s" % (meth, role), "%s is %s after %s, expected %s" % (
                    role, T.show(f), meth, T.show(v)), p.loc, p)
            if meth == "restart":
                calls = [e for e in p.calls("restart")]
                good = [e for e in calls if e.recv == ("elem", hier) or e.recv == T.item(hier, ("index", hier))]
                rep.check(bool(good), "restart-groups", meth, "restart does not hand the voltages to every group",
                          p.loc, p)
                for e in good:
                    a = e.arg(0, "new_voltages")
                    ok = a is not None and a[0] == "mcall" and a[1] == ex.get("experiment") and a[2] == "read_gate_voltages"
                    rep.check(True if ok else (None if a is None or vague(a) else False), "restart-voltages", meth,
                              "groups are restarted with %s instead of the present gate voltages" % T.show(a), e.loc, p)
                    cond = loop_conditions(p, e)
                    rep.check(not cond, "restart-groups", meth, "a group is only restarted if %s" % cond, e.loc, p)
    rep.need("reset", 6)
    rep.need("restart-voltages")
    # tuners
    for c in ctx.prog.subclasses("ParameterTuner"):
        i, paths = ctx.run(c, "restart")
        new = T_param(ctx, c, "restart", 0)
        solver, old = i.initial("solver"), i.initial("last_voltages")
        for p in paths:
            if p.kind != "ret":
                rep.bad("restart-tuner", c.name, "restart raises", p.loc, p)
                continue
            sc = [e for e in p.calls("restart") if e.recv == solver]
            rep.check(len(sc) == 1 and sc[0].arg(0) is not None and sc[0].arg(0) == new, "restart-solver",
                      c.name + ".restart", "the solver is not restarted with the new voltages", p.loc, p)
            position(rep, p, p.final("last_voltages"), old, new, c.name + ".restart", "last voltages")
    # solvers
    for c in ctx.prog.subclasses("Solver"):
        i, paths = ctx.run(c, "restart")
        new = T_param(ctx, c, "restart", 0)
        old = i.initial("current_position")
        ests = i.initial("gradient_estimators") if ctx.prog.getter(c, "gradient_estimators") else None
        for p in paths:
            if p.kind == "raise":
                rep.check(not_implemented(p), "restart-solver-own", c.name, "restart raises", p.loc, p)
                continue
            position(rep, p, p.final("current_position"), old, new, c.name + ".restart", "position")
            if ests is not None:
                rc = [e for e in p.calls("restart") if e.recv == ("elem", ests)]
                rep.check(bool(rc), "restart-estimators", c.name + ".restart",
                          "the gradient estimators are not restarted", p.loc, p)
                for e in rc:
                    rep.check(e.arg(0) == new, "restart-estimators", c.name + ".restart",
                              "estimators are restarted with %s" % T.show(e.arg(0)), e.loc, p)
                    cond = loop_conditions(p, e)
                    rep.check(not cond, "restart-estimators", c.name + ".restart",
                              "an estimator is only restarted if %s" % cond, e.loc, p)
    rep.need("restart-estimators")
    for c in ctx.prog.subclasses("GradientEstimator"):
        i, paths = ctx.run(c, "restart", opaque_props=())
        new = T_param(ctx, c, "restart", 0)
        old = i.initial("current_position")
        for p in paths:
            if p.kind == "raise":
                rep.check(not_implemented(p), "restart-estimator", c.name, "restart raises", p.loc, p)
                continue
            f = p.final("current_position")
            # estimators that delegate hand the voltages on to every estimator they delegate to
            dele = [e for e in p.calls("restart")]
            moved = [e for e in dele if e.arg(0) == new and f == ("attr", e.recv, "current_position")]
            if moved or f == old and dele:
                rep.check(all(e.arg(0) == new for e in dele), "restart-delegate", c.name + ".restart",
                          "the delegate is restarted with something else", p.loc, p)
            elif old[0] in ("attr", "item") and old[1] != SELF and not T.contains(f, new):
                rep.check(False if not vague(f) else None, "restart-estimator", c.name + ".restart",
                          "position after a restart is %s" % T.show(f), p.loc, p)
            else:
                position(rep, p, f, old, new, c.name + ".restart", "position")
    rep.need("position-moved", 4)
    # the setters used elsewhere move the position as well and do not change the object that was passed in before
    for base, prop in (("ParameterTuner", "last_voltages"), ("Solver", "current_position"),
                       ("GradientEstimator", "current_position")):
        for c in ctx.prog.subclasses(base):
            if ctx.prog.setter(c, prop) is None:
                continue
            i, paths = ctx.run(c, prop, "set")
            new = ("param", ctx.prog.setter(c, prop).params()[0][1])
            old = i.initial(prop)
            for p in paths:
                if p.kind == "raise":
                    continue
                f = p.final(prop)
                deleg = [e for e in p.events if e.kind == "store" and e.recv != SELF and e.args and e.args[0] == new]
                if f == old or deleg:
                    d = [e for e in p.events if e.kind in ("store", "call") and any(T.contains(a, new) for a in e.args)]
                    rep.check(True if d else (None if vague(f) else False), "position-moved",
                              "%s.%s setter" % (c.name, prop), "the position is not moved", p.loc, p)
                else:
                    position(rep, p, f, old, new, "%s.%s setter" % (c.name, prop), prop)


def T_param(ctx, c, meth, k):
    f = ctx.prog.method(c, meth)
    pos = f.params()[0]
    return ("param", pos[k + 1])


def not_implemented(p):
    t = p.st.store.get(p.val) if p.val is not None else None
    return t is not None and t[0] in ("exc", "glob", "new", "call") and "NotImplementedError" in repr(t)


def loop_conditions(p, e):
    """conditions inside the innermost loop of e under which e happens"""
    if not e.loops:
        return ""
    cs = [f for f in p.facts_before(e) if f.loops == e.loops and not f.term[0] == "isinstance"]
    return " & ".join(repr(f) for f in cs)


def position(rep, p, f, old, new, construct, what):
    """f must be old with the entries of new taken over for the gates it knows (or new itself if there was none)"""
    if f == new or (f[0] in ("fn",) and f[1] in ("copy", "deepcopy") and f[2][0] == new):
        # accepted as a whole: only if there was nothing to keep
        none = p.i.decide(p.st, T.is_none(old))
        empty = any(fc.val and fc.term in (T.truth(("attr", old, "empty")), T.fn("empty", old)) or
                    (fc.val and T.contains(fc.term, old) and fc.term != ("isnone", old)) for fc in p.facts)
        rep.check(True if none or empty else None, "position-moved", construct, "whole vector taken over", p.loc, p)
        return
    base = f
    writes = []
    while base[0] == "setitem":
        writes.append((base[2], base[3]))
        base = base[1]
    if not writes:
        rep.check(None if vague(f) and T.contains(f, new) else (None if opaque(f) and T.contains(f, new) else False),
                  "position-moved", construct, "%s is %s, the new voltages are not taken over" % (what, T.show(f)), p.loc, p)
        return
    b = base
    while b[0] == "fn" and b[1] in ("copy", "deepcopy", "Series") and b[2]:
        b = b[2][0]
    for idx, val in writes:
        want = T.item(new, idx)
        if val == want and T.contains(idx, ("attr", old, "index")) or val == ("elem", new):
            rep.ok("position-moved", construct, p.loc)
        elif val == want and T.contains(idx, old):
            rep.ok("position-moved", construct, p.loc)
        elif vague(val) or vague(idx):
            rep.unk("position-moved", construct, "%s[%s] = %s" % (what, T.show(idx), T.show(val)), p.loc)
        else:
            rep.bad("position-moved", construct, "%s[%s] becomes %s instead of the new voltages of the gates it knows" % (
                what, T.show(idx), T.show(val)), p.loc, p)


def c05(ctx):
    rep, L = ctx.rep, Loop(ctx)
    if L.path_attr is None:
        raise AnalysisBroken("the storage path is not exported")
    for p in L.paths:
        if p.kind != "ret":
            rep.check(not p.calls("write"), "no-save-on-error", "iterate/raise", "a failing iteration is saved", p.loc, p)
            continue
        c = L.construct(p)
        cfg = p.truth(L.path_attr)
        none = p.i.decide(p.st, T.is_none(L.path_attr))
        if cfg is None and none is not None:
            cfg = not none
        w = p.calls("write")
        if cfg is False:
            rep.check(not w, "save-only-if-configured", c, "saved without a storage path", p.loc, p)
            continue
        if cfg is None and not w:
            rep.bad("saved", c, "the iteration ends without saving", p.loc, p)
            continue
        rep.check(len(w) == 1, "saved", c, "an iteration with a storage path is saved %d times" % len(w), p.loc, p)
        for e in w:
            k = p.index(e)
            later = [s for s in p.events[k + 1:] if (s.kind == "store" and s.recv == SELF and s.name in role_attrs(L)) or
                     (s.kind == "mutate" and touches_self(s.recv)) or (s.kind == "call" and s.name in ACTIONS)]
            rep.check(not later, "saved-last", c, "state changes after it was handed to the writer: %r" % (later[:1],),
                      later[0].loc if later else e.loc, p)
            rep.check(e.arg(0, "obj") == SELF, "saves-itself", c, "%s is saved" % T.show(e.arg(0, "obj") or NONE), e.loc, p)
            fname = e.arg(2, "file_name") if "file_name" not in e.kw else e.kw["file_name"]
            if fname is None:
                rep.bad("file-name", c, "no file name is passed to the writer", e.loc, p)
                continue
            under = any(x == L.path_attr for x in T.subterms(fname))
            rep.check(under, "file-in-directory", c, "the file %s is not in the configured directory" % T.show(fname),
                      e.loc, p)
            fresh = [x for x in T.subterms(fname) if x[0] in ("call", "mcall") and
                     any(n in repr(x) for n in ("time_string", "high_res_datetime", "datetime", "time."))]
            rep.check(bool(fresh), "fresh-file", c, "the file name %s does not contain the current time" % T.show(fname),
                      e.loc, p)
            last = p.final("last_save_file")
            rep.check(True if last == fname else (None if vague(last) else False), "recorded", c,
                      "last_save_file is %s, the state goes to %s" % (T.show(last), T.show(fname)), e.loc, p)
            rec = [s for s in p.events[:k] if s.kind == "store" and s.recv == SELF and s.name == "last_save_file"]
            rep.check(bool(rec), "recorded-before", c, "the file is recorded only after the state was handed over", e.loc, p)
            # directory created if missing
            isdir = None
            for f in p.facts_before(e):
                if "isdir" in repr(f.term) or "exists" in repr(f.term):
                    isdir = f.val
            made = [m for m in p.events[:k] if m.kind == "call" and m.name in ("os.makedirs", "os.mkdir", "makedirs", "mkdir")]
            rep.check(isdir is True or bool(made), "directory-created", c,
                      "a missing directory is not created before the state is written", e.loc, p)
    rep.need("saved", 4)
    rep.need("saved-last", 4)
    # the name of the file has a high resolution
    f = ctx.prog.modules["qtune.util"].funcs.get("time_string")
    if f is None:
        raise AnalysisBroken("util.time_string not found")
    i, paths = ctx.run_func(f)
    for p in paths:
        fm = [x[1] for x in T.subterms(p.ret or NONE) if T.is_const(x) and isinstance(x[1], str) and "%" in x[1]]
        if not fm:
            rep.unk("resolution", "time_string", "no format string found in %s" % T.show(p.ret), p.loc)
        else:
            rep.check(any("%f" in x for x in fm), "resolution", "time_string",
                      "the time string %s does not resolve consecutive iterations" % fm, p.loc, p)
    rep.need("resolution")


def role_attrs(L):
    out = set()
    for a in L.roles.values():
        t = L.i.initial(a)
        if t[0] == "attr" and t[1] == SELF:
            out.add(t[2])
    return out


RULES = {
    "C01": (c01, "Path-sensitive dataflow over Autotuner.iterate (helpers, properties inlined): on every path that reaches "
                 "set_gate_voltages the argument is proved free of NaN by a dominating branch, and NaN paths raise without "
                 "any store, action or save."),
    "C02": (c02, "Trace partitioning of Autotuner.iterate: per path exactly one action call, dominated by readiness, completion, "
                 "pending and flag branches; failing guards have no prior effects."),
    "C03": (c03, "Symbolic final state of every path of Autotuner.iterate compared with the transition table of the loop; "
                 "is_tuning_complete compared over the order of position and number of groups."),
    "C04": (c04, "Final states and propagated calls of restart / change_targets / position setters of all tuners, solvers "
                 "and estimators (value numbering, generic loop iteration)."),
    "C05": (c05, "Must-pass-through and ordering analysis of the save routine on every non-raising path of Autotuner.iterate; "
                 "file name term provenance."),
}

"""C30: the readiness check."""


from .common import *
from ..terms import const, fn, item, TRUE, FALSE, NONE


def attr(t, name):
    return ("attr", t, name)


def bare(t):
    """the labelled thing behind a collection of its names"""
    while True:
        if t[0] == "attr" and t[2] in ("index", "columns"):
            t = t[1]
        elif t[0] == "fn" and t[1] in ("set", "list", "tuple", "sorted", "keys", ".keys", "frozenset", "copy") and t[2]:
            t = t[2][0]
        else:
            return t


class Formula:
    """propositional reading of a path condition; `universal`: a negated "some element ..." is read for the generic
    element; a positive one is a separate unknown (or its witness, if `witness`)"""

    def __init__(self, known, witness):
        self.known, self.witness = known, witness
        self.atoms, self.vague = {}, False

    def atom(self, t):
        if t[0] == "subset" and self.known(t[2]):
            k = ("known", bare(t[1]))
        elif t[0] == "subset":
            k = ("subset", bare(t[1]), bare(t[2]))
        else:
            k = t
        if k not in self.atoms:
            self.atoms[k] = len(self.atoms)
            if vague(t):
                self.vague = True
        return ("atom", self.atoms[k])

    def read(self, t, pos):
        h = t[0]
        if T.is_bool_const(t):
            return t
        if h == "not":
            return ("not", self.read(t[1], not pos))
        if h in ("and", "or") and isinstance(t[1], tuple):
            return (h, tuple(self.read(x, pos) for x in t[1]))
        if h == "boolop":
            return (t[1], tuple(self.read(x, pos) for x in t[2]))
        if h == "fn" and t[1] == "any" and t[2] and t[2][0][0] == "comp" and (self.witness or not pos):
            c = t[2][0]
            return ("and", tuple(self.read(x, pos) for x in tuple(c[4]) + (c[2],)))
        return self.atom(t)


def partly(f, a):
    """value under an assignment of some atoms: True, False or None (open)"""
    if f[0] == "atom":
        return a.get(f[1])
    if f[0] == "not":
        v = partly(f[1], a)
        return None if v is None else not v
    if f[0] in ("and", "or"):
        stop, seen = f[0] == "or", False
        for x in f[1]:
            v = partly(x, a)
            if v is stop:
                return stop
            seen = seen or v is None
        return None if seen else not stop
    return bool(f[1])


def possible(fs, n, a=None):
    """some assignment makes all formulas true"""
    a = {} if a is None else a
    fs = [(f, partly(f, a)) for f in fs]
    if any(v is False for _, v in fs):
        return False
    fs = [f for f, v in fs if v is None]
    if not fs:
        return True
    k = open_atom(fs[0], a)
    return any(possible(fs, n, {**a, k: v}) for v in (True, False))


def open_atom(f, a):
    if f[0] == "atom":
        return f[1] if f[1] not in a else None
    if f[0] == "not":
        return open_atom(f[1], a)
    if f[0] in ("and", "or"):
        for x in f[1]:
            if partly(x, a) is None:
                k = open_atom(x, a)
                if k is not None:
                    return k
    return None


def readiness(ctx):
    rep = ctx.rep
    i, paths = ctx.run("Autotuner", "ready_to_tune", skip_paths=False)
    if i is None:
        return
    c0 = "Autotuner.ready_to_tune"
    exp = [(i.export() or {}).get("experiment")]
    if exp[0] is None:
        raise AnalysisBroken("Autotuner.to_hdf5 exports no experiment")

    def known(t):
        return any(x[0] in ("mcall", "attr") and (x[2] in ("read_gate_voltages", "gate_voltage_names")) and x[1] in exp
                   for x in T.subterms(t))
    pend, groups = i.initial("voltages_to_set"), i.initial("tuning_hierarchy")
    e = ("elem", groups)
    solver = attr(e, "solver")
    est = ("elem", attr(solver, "gradient_estimators"))
    isnone, sub = T.is_none, lambda a: ("subset", attr(a, "index"), ("GATES",))
    newton = ("isinstance", solver, "NewtonSolver")
    wanted = {
        "pending voltages": T.or_(isnone(pend), sub(pend)),
        "last voltages of a group": T.or_(isnone(attr(e, "last_voltages")), sub(attr(e, "last_voltages"))),
        "position of a solver": sub(attr(solver, "current_position")),
        "position of an estimator": T.or_(T.not_(newton), isnone(attr(est, "current_position")),
                                          sub(attr(est, "current_position"))),
        "gates of a step-limited group": T.or_(T.not_(newton), T.not_(("isinstance", e, "SubsetTuner")),
                                               isnone(attr(est, "current_position")), ("subset", attr(e, "tunable_gates"), attr(attr(est, "current_position"), "index"))),
    }
    # an estimator without position: its gates may, but need not, be compared with those of the experiment
    without = T.or_(T.not_(newton), T.not_(("isinstance", e, "SubsetTuner")), T.not_(isnone(attr(est, "current_position"))),
                    ("subset", attr(e, "tunable_gates"), ("GATES",)))
    verdicts = set()
    for p in paths:
        r = p.truth(p.ret) if p.kind == "ret" else False
        if p.kind == "ret" and r is None:
            rep.unk("verdict", c0, "the verdict %s is not understood" % T.show(p.ret)[:200], p.loc)
            continue
        verdicts.add(r)
        F = Formula(lambda t: t == ("GATES",) or known(t), not r)
        facts = []
        for f in p.facts:
            if f.loops and r:
                continue            # only what holds for every element counts for a positive verdict
            if f.loops and p.kind == "ret" and not _left(p, f.loops):
                continue
            facts.append(F.read(f.term if f.val else T.not_(f.term), True))
        conds = {k: F.read(t, r) for k, t in wanted.items()}
        fine = list(conds.values()) + ([] if r else [F.read(without, r)])
        if len(F.atoms) > 40:
            rep.unk("verdict", c0, "too many conditions", p.loc)
            continue
        n = len(F.atoms)
        if r:
            for k, f in conds.items():
                lost = possible(facts + [("not", f)], n)
                rep.check(None if lost and F.vague else not lost, "reported", c0 + "/" + k,
                          "the check passes although the %s name a gate that is not known" % k, p.loc, p)
        else:
            wrong = possible(facts + fine, n)
            rep.check(None if wrong and F.vague else not wrong, "only-incoherence", c0,
                      "the check fails although all gate names are known", p.loc, p)
    rep.check(verdicts == {True, False} or (None if i is None else False), "verdict", c0,
              "the check always gives the same verdict %s" % verdicts)
    for p in paths:
        for x in p.events:
            if x.kind == "store" and x.recv is not None and x.recv[0] != "ref":
                rep.bad("no-effect", c0, "the readiness check stores %s.%s" % (T.show(x.recv), x.name), x.loc, p)
            elif x.kind == "mutate" and (x.recv is None or not _own(x)):
                rep.bad("no-effect", c0, "the readiness check changes %s" % T.show(x.recv)[:120], x.loc, p)
            elif x.kind == "call" and x.name in ("set_gate_voltages", "measure", "evaluate", "iterate", "restart",
                                                 "change_position", "change_targets", "update", "get_next_voltages",
                                                 "suggest_next_position", "update_after_step", "save_current_status"):
                rep.bad("no-effect", c0, "the readiness check calls %s" % x.name, x.loc, p)
    rep.ok("no-effect", c0, None, "%d paths" % len(paths))


def _left(p, loops):
    return any(e.kind == "leave" for e in p.events)


def _own(e):
    return not any(x[0] in ("self", "param", "attr") for x in T.subterms(e.recv)) if e.recv else False


RULES = {
    "C30": (readiness, "Abstract interpretation of Autotuner.ready_to_tune over one generic group and one generic "
            "estimator; what is known about every element when the check passes (accumulated flags, early exits) is "
            "compared, as a truth table over the name-containment atoms, with the five coherence conditions, in both "
            "directions."),
}

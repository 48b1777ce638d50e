"""Shared machinery of the rules."""
from .. import terms as T
from ..interp import Interp, TooManyPaths
from ..loader import AnalysisBroken
from ..vocab import METHODS

SELF = ("self",)


class Ctx:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.cache = {}
        new = set()
        for c in prog.classes.values():
            for n in list(c.methods) + list(c.getters):
                if n not in METHODS:
                    new.add(n)
        self.new_methods = new

    def interp(self, **kw):
        kw.setdefault("inline_foreign", self.new_methods)
        return Interp(self.prog, **kw)

    def run(self, cls, name, kind="method", **kw):
        """(interp, paths); (None, None) if the function is too complex to analyse (recorded as undecided)"""
        c = self.prog.cls(cls) if isinstance(cls, str) else cls
        i = self.interp(**kw)
        try:
            paths = i.run_method(c, name, kind)
        except AnalysisBroken:
            raise
        except (TooManyPaths, RecursionError) as e:
            self.rep.unk("analysable", "%s.%s" % (c.name, name), "not analysable: %s" % type(e).__name__)
            return None, []
        self.rep.used(i)
        return i, [p for p in paths if not self.impossible(c, p)]

    def impossible(self, c, p):
        """the path assumes that a mandatory constructor argument, documented as an object of the package, was missing"""
        req = self.required(c)
        for f in p.facts:
            t, v = f.term, f.val
            while t[0] == "not":
                t, v = t[1], not v
            if t[0] == "isnone" and v and t[1] in req:
                return True
            if not v and t in req:
                return True
        return False

    def required(self, c):
        key = ("required", c.name)
        if key not in self.cache:
            import ast
            out = set()
            init = self.prog.method(c, "__init__")
            if init is not None:
                a = init.node.args
                pos = a.posonlyargs + a.args
                must = pos[1:len(pos) - len(a.defaults)] + [x for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
                names = {}
                for x in must:
                    t = x.annotation
                    t = t.value if isinstance(t, ast.Constant) else t.attr if isinstance(t, ast.Attribute) else \
                        t.id if isinstance(t, ast.Name) else None
                    if isinstance(t, str) and any(k.name == t for k in self.prog.classes.values()):
                        names[x.arg] = t
                stored = {}
                for k in self.prog.mro(c):
                    for m in list(k.methods.values()) + list(k.getters.values()) + list(getattr(k, "setters", {}).values()):
                        for n in ast.walk(m.node):
                            tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []
                            for t in tg:
                                for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                                    if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "self":
                                        v = getattr(n, "value", None)
                                        stored.setdefault(y.attr, []).append(
                                            v.id if m.name == "__init__" and k == c and isinstance(v, ast.Name) else None)
                out = {("attr", SELF, a) for a, v in stored.items() if v and all(x in names for x in v)}
            self.cache[key] = out
        return self.cache[key]

    def run_func(self, func, cls=None, **kw):
        i = self.interp(**kw)
        try:
            paths = i.run(func, cls)
        except (TooManyPaths, RecursionError) as e:
            self.rep.unk("analysable", func.qual, "not analysable: %s" % type(e).__name__)
            return None, []
        self.rep.used(i)
        return i, paths


def vague(t):
    """the term contains something the analysis could not interpret"""
    return any(x[0] in ("unk", "phi", "deep", "gfunc", "lambda", "func") for x in T.subterms(t))


def opaque(t):
    return any(x[0] in ("unk", "phi", "deep", "call", "mcall", "gfunc", "lambda", "func") for x in T.subterms(t))


def is_value(p, t, want):
    """t equals want on path p: True / False / None (not interpretable)"""
    if t == want:
        return True
    if T.is_bool_const(want):
        d = p.i.decide(p.st, T.truth(t))
        if d is None:
            return None if vague(t) else False
        return d == want[1]
    if want == T.NONE:
        d = p.i.decide(p.st, T.is_none(t))
        if d is None:
            return None if vague(t) else False
        return d
    if T.contains(t, want) and vague(t):
        return None
    return None if vague(t) else False


def stores(p, obj=SELF):
    return [e for e in p.events if e.kind == "store" and e.recv == obj]


def own_mutations(p):
    """in-place changes of something reachable from self (not of objects made in the function)"""
    return [e for e in p.events if e.kind == "mutate" and e.recv is not None and touches_self(e.recv)]


def touches_self(t):
    while t[0] in ("attr", "item", "elem", "val", "setitem", "append", "elemrow"):
        t = t[1]
    return t == SELF


def where(p):
    return p.loc

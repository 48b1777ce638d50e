"""C26: implementations of an interface can be used interchangeably."""
import ast
from .common import *
from ..loader import Class, Func, walk_local
from .names import Types, Names, funcs_of, local_names

ROOTS = ("Solver", "GradientEstimator", "ParameterTuner", "Evaluator", "Experiment", "Measurement")


def open_(f):
    """the operation is left open: nothing but raising NotImplementedError (or an empty abstract method)"""
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    abstract = any("abstractmethod" in ast.unparse(d) or "abstractproperty" in ast.unparse(d) for d in f.node.decorator_list)
    if abstract:
        return True
    if len(body) == 1 and isinstance(body[0], ast.Raise) and body[0].exc is not None:
        e = body[0].exc
        e = e.func if isinstance(e, ast.Call) else e
        return isinstance(e, ast.Name) and e.id in ("NotImplementedError", "NotImplemented")
    return False


def resolved(prog, c, name):
    """(kind, function) an object of class c offers under the name"""
    for k in prog.mro(c):
        if name in k.getters:
            return "property", k.getters[name]
        if name in k.methods:
            f = k.methods[name]
            return ("method" if f.kind == "function" else f.kind), f
        if name in k.attrs:
            return "attribute", k
        if name in k.setters:
            return "property", k.setters[name]
    return None, None


def members(c):
    return [n for n in list(c.methods) + list(c.getters) if not (n.startswith("__") and n.endswith("__")) and not n.startswith("_")]


def shape(f):
    pos, kwonly, defaults, var, kw = f.params()
    pos = pos[1:] if f.kind != "staticmethod" else pos
    return pos, kwonly, defaults, var, kw


def c26(ctx):
    rep, prog = ctx.rep, ctx.prog
    names = Names(ctx)
    rep.stats["functions"] |= {(f.module.rel, f.qual) for f in prog.all_funcs()}
    families = [prog.classes[r] for r in ROOTS if r in prog.classes]
    if not families:
        raise AnalysisBroken("none of the interfaces was found")
    fam = {}
    for root in families:
        for c in prog.subclasses(root.name):
            fam.setdefault(c, root)
    bases_of = {k for c in fam for k in prog.mro(c) if k is not c}
    leaves = [c for c in fam if c not in bases_of]
    ext = {c: [b for b in prog.ext_bases(c) if b not in ("object",) and not b.endswith("ABC")] for c in fam}
    dyn = {c for c in fam if any("__getattr__" in k.methods or "__getattribute__" in k.methods for k in prog.mro(c)) or ext[c]}
    # 1. overrides fit what they override
    for c in fam:
        for name in members(c):
            for b in prog.mro(c)[1:]:
                if b not in fam:
                    continue
                kb = "property" if name in b.getters else "method" if name in b.methods else None
                if kb is None:
                    continue
                kind, f = resolved(prog, c, name)
                g = b.getters.get(name) or b.methods[name]
                loc = (c.module.rel, f.node.lineno, c.name + "." + name)
                kb = kb if kb == "property" or g.kind == "function" else g.kind
                con = "%s.%s" % (c.name, name)
                rep.check(kind == kb or (kind in ("staticmethod", "classmethod") and kb in ("staticmethod", "classmethod")), "kind", con,
                          "%s is a %s in %s but a %s here" % (name, kb, b.name, kind), loc)
                if kind != kb:
                    continue
                if kind == "property":
                    if prog.setter(b, name) is not None:
                        rep.check(prog.setter(c, name) is not None, "settable", con, "%s can be assigned in %s but not here" % (name, b.name), loc)
                    continue
                if any(not isinstance(d, ast.Name) or d.id not in ("staticmethod", "classmethod") for d in f.node.decorator_list):
                    continue
                pb, kob, db, vb, kwb = shape(g)
                pc, koc, dc, vc, kwc = shape(f)
                need_b = [x for x in pb if x not in db]
                need_c = [x for x in pc if x not in dc]
                extra = len(need_c) > len(need_b) and vb is None
                # keyword-only requirements
                kneed = [x for x in koc if x not in dc and x not in kob]
                rep.check(not extra and not kneed, "accepts", con, "needs the argument %s, which callers of %s.%s do not pass" % (
                    ", ".join((need_c[len(need_b):] if extra else []) + kneed), b.name, name), loc)
                rep.check(len(pc) >= len(pb) or vc is not None, "accepts", con + "/positional", "accepts %d positional arguments, %s.%s accepts %d" % (
                    len(pc), b.name, name, len(pb)), loc)
                swapped = [x for i, x in enumerate(pb) if x in pc and pc.index(x) != i]
                rep.check(not swapped, "order", con, "the arguments %s stand in another order than in %s" % (", ".join(swapped), b.name), loc)
    # 2. open operations are implemented by every concrete class
    uses = foreign_uses(prog)
    for c in leaves:
        for b in prog.mro(c):
            if b not in fam:
                continue
            for name in [n for n in list(b.methods) + list(b.getters) if not n.startswith("__")]:
                g = b.getters.get(name) or b.methods.get(name)
                if not open_(g) or template(c) or not needed(prog, c, name, uses):
                    continue
                kind, f = resolved(prog, c, name)
                done = kind == "attribute" or not open_(f)
                con = "%s.%s" % (c.name, name)
                if not done and c in dyn:
                    rep.unk("implemented", con, "inherits from outside the package")
                    continue
                rep.check(done, "implemented", con, "%s leaves %s of %s open" % (c.name, name, b.name), (c.module.rel, c.node.lineno, c.name))
    # 3. properties without setter are not assigned
    for c in fam:
        props = {}
        for k in prog.mro(c):
            for n in k.getters:
                props.setdefault(n, None)
        for k in prog.mro(c):
            for f in funcs_of(k):
                if not f.params()[0]:
                    continue
                me = f.params()[0][0]
                for n in walk_local(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me \
                            and n.attr in props and f.kind == "function":
                        if any(k2 is not c and n.attr in k2.attrs for k2 in prog.mro(c)):
                            continue
                        # the method itself may be overridden in c
                        kind, g = resolved(prog, c, f.name)
                        if f.prop is None and g is not None and g is not f and not uses_super(g, f.name):
                            continue
                        if prog.getter(c, n.attr) is None:
                            continue
                        rep.check(prog.setter(c, n.attr) is not None, "settable", "%s.%s" % (c.name, n.attr),
                                  "%s assigns %s, which is a property without setter in %s" % (f.qual, n.attr, c.name), (k.module.rel, n.lineno, f.qual))
    # 4. calls and assignments through the interface
    owners = {}
    for c in fam:
        for n in members(c):
            owners.setdefault(n, set()).add(fam[c])
    elsewhere = {n for m in prog.modules.values() for c in m.classes.values() if c not in fam for n in list(c.methods) + list(c.getters)}
    for f in prog.all_funcs():
        for n in walk_local(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                v = n.func.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                    continue
                if n.func.attr not in owners:
                    continue
                t = names.types.of(v, f)
                if t is None and len(owners[n.func.attr]) == 1 and n.func.attr not in elsewhere:
                    t = next(iter(owners[n.func.attr]))
                    if not isinstance(v, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)):
                        continue
                    if isinstance(v, ast.Name) and v.id not in local_names(f.node) | set(f.params()[0]):
                        continue
                if not isinstance(t, Class) or t not in fam:
                    continue
                for c in prog.subclasses(t.name):
                    if c in bases_of and open_(resolved(prog, c, n.func.attr)[1]) if isinstance(resolved(prog, c, n.func.attr)[1], Func) else False:
                        continue
                    kind, g = resolved(prog, c, n.func.attr)
                    if kind is None and c is not t and prog.method(t, n.func.attr) is None:
                        continue
                    if kind != "method":
                        continue
                    err = names.fits(n, g, True)
                    if err is None:
                        continue
                    rep.check(err == "", "calls", "%s.%s" % (c.name, n.func.attr) + ("" if not err else "/" + f.qual),
                              "the call in %s %s" % (f.qual, err), (f.module.rel, n.lineno, f.qual))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                t = names.types.of(n.value, f)
                if not isinstance(t, Class) or t not in fam or isinstance(n.value, ast.Name) and f.params()[0] and n.value.id == f.params()[0][0] and f.cls:
                    continue
                for c in prog.subclasses(t.name):
                    if prog.getter(c, n.attr) is not None:
                        rep.check(prog.setter(c, n.attr) is not None, "settable", "%s.%s" % (c.name, n.attr),
                                  "%s assigns %s, a property without setter in %s" % (f.qual, n.attr, c.name), (f.module.rel, n.lineno, f.qual))
    for rule, m in (("kind", 30), ("accepts", 20), ("implemented", 10), ("calls", 10), ("settable", 3)):
        rep.need(rule, m)


def template(c):
    """a class that is meant to be derived from: all it defines itself is left open"""
    own = [f for n, f in list(c.methods.items()) + list(c.getters.items()) if n not in ("__init__", "to_hdf5", "__repr__", "__str__", "__new__")
           and not n.startswith("_")]
    return bool(own) and all(open_(f) for f in own)


def receiver_is_self(n, f):
    v = n.value
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
        return True
    return isinstance(v, ast.Name) and f.cls is not None and bool(f.params()[0]) and v.id == f.params()[0][0]


def foreign_uses(prog):
    """names of attributes used on objects other than self"""
    out = set()
    for f in prog.all_funcs():
        for n in walk_local(f.node):
            if isinstance(n, ast.Attribute) and not receiver_is_self(n, f):
                out.add(n.attr)
    return out


def needed(prog, c, name, uses):
    """the package uses the operation from outside, or a method that c offers relies on it"""
    if name in uses:
        return True
    for k in prog.mro(c):
        for f in funcs_of(k):
            if resolved(prog, c, f.name)[1] is f and any(isinstance(n, ast.Attribute) and n.attr == name and receiver_is_self(n, f)
                                                        for n in walk_local(f.node)):
                return True
    return False


def uses_super(f, name):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == name for n in walk_local(f.node))


RULES = {
    "C26": (c26, "For every class of the package's interfaces (solver, estimator, tuner, evaluator, experiment, measurement) each overriding "
                 "member is compared with what it overrides (kind, setter, accepted positional arguments and their order), every concrete class is "
                 "checked to implement each operation its bases leave open, and every call and assignment made through an interface type is checked "
                 "against all implementations.",
            "interface conformance analysis over the class hierarchy and typed call sites (static analysis)"),
}

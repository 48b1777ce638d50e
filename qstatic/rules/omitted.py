"""C49: what may be left out may be left out, and what was found missing is not used.  Every function is evaluated with its optional
arguments bound to None, one by one and all together, and once with all of them given; a use of None as an object (attribute, element,
iteration, arithmetic, comparison, call) on a path is reported."""
import ast
from .common import *
from .. import terms as T, vocab
from ..terms import const, NONE

OPAQUE = ("read_autotuner_to_data_frame", "read_evaluator_data_from_autotuner", "extract_voltages_from_hierarchy", "from_hdf5",
          "load_file", "load_directory", "load_auto_tuner")
STEPS = 30000
CATCH = ("AttributeError", "TypeError", "Exception", "BaseException")


def omittable(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    ds = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    return [x.arg for x, d in ds if isinstance(d, ast.Constant) and d.value is None]


def public(f):
    if isinstance(f.node, ast.Lambda) or f.outer is not None:
        return False
    if f.cls is not None and f.cls.name.startswith("_"):
        return False
    return f.name == "__init__" or not f.name.startswith("_")


def caught(ctx, loc):
    """the place is inside a try statement that catches the use of None"""
    key = ("tries", loc[0])
    if key not in ctx.cache:
        spans = []
        for m in ctx.prog.modules.values():
            if m.rel != loc[0]:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Try) and any(h.type is None or any(c in ast.unparse(h.type) for c in CATCH) for h in n.handlers):
                    spans.append((n.body[0].lineno, n.body[-1].end_lineno))
        ctx.cache[key] = spans
    return any(a <= loc[1] <= b for a, b in ctx.cache[key])


def run(ctx, f, missing, cls=None, attrs=None):
    i = ctx.interp(nones=True, fixed={x.strip("*"): ("dict", ()) if x[0] == "*" else NONE for x in missing}, opaque=set(OPAQUE) - {f.name}, fixed_attrs=attrs, maxsteps=STEPS)
    try:
        ps = i.run(f, cls or f.cls)
    except (TooManyPaths, RecursionError):
        ctx.rep.unk("analysable", f.qual, "not analysable within the budget")
        return []
    ctx.rep.used(i)
    return ps


def mentions(term, names):
    return any(x[0] == "param" and x[1] in names for x in T.subterms(term))


def given(rep, f, names, p):
    """an argument that was given is not replaced"""
    if p.kind != "ret":
        return
    for x in names:
        facts = [y for y in p.facts if mentions(y.term, (x,))]
        if not any(y.term == ("isnone", ("param", x)) and not y.val for y in facts):
            continue
        if len(facts) > 1 or x not in p.st.env:
            rep.unk("given", f.qual, "the use of %s is subject to further conditions" % x, p.loc) if x not in p.st.env else None
            continue
        t = p.i.snap(p.st, p.st.env[x])
        v = True if mentions(t, (x,)) else (None if any(vague(y) for y in T.subterms(t)) else False)
        rep.check(v, "given", f.qual, "the given %s is replaced by %s" % (x, T.show(t)[:100]), p.loc, p)


def fresh(ctx):
    """methods work on an object that was created without its optional arguments"""
    rep, prog = ctx.rep, ctx.prog
    provided = set()        # state that another object provides before the methods are called
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            for t in n.targets if isinstance(n, ast.Assign) else ():
                if isinstance(t, ast.Attribute) and not (isinstance(t.value, ast.Name) and t.value.id == "self"):
                    provided.add(t.attr)
    for c in prog.classes.values():
        init = prog.method(c, "__init__")
        names = omittable(init) if init is not None else []
        if init is not None and init.node.args.kwarg:
            names = names + ["**" + init.node.args.kwarg.arg]
        if not names or c.module.rel.endswith("gui.py"):
            continue
        ps = [p for p in run(ctx, init, names, c) if p.kind == "ret"]
        state = None
        for p in ps:
            now = {k[1]: p.i.snap(p.st, r) for k, r in p.st.heap.items() if k[0] == p.i.self_ref}
            now = {a: t for a, t in now.items() if T.is_const(t)}
            state = now if state is None else {a: t for a, t in state.items() if now.get(a) == t}
        state = {a: t for a, t in (state or {}).items() if not a.startswith("_raw_")      # nothing measured, nothing to process
                 and a not in provided}
        if NONE not in state.values():
            continue
        for k in prog.mro(c):
            for kind, table in (("method", k.methods), ("get", k.getters), ("set", k.setters)):
                for n, m in table.items():
                    if n not in vocab.METHODS or n.startswith("_") and not n.endswith("__"):
                        continue                # helpers count where they are called
                    if n == "__init__" or (prog.getter(c, n) if kind == "get" else prog.setter(c, n) if kind == "set" else prog.method(c, n)) is not m:
                        continue
                    bad = set()
                    for p in run(ctx, m, (), c, state):
                        for e in p.events:
                            if e.kind == "none" and e.recv == NONE and e.loc not in bad:
                                bad.add(e.loc)
                                rep.check(None if caught(ctx, e.loc) else False, "fresh", "%s.%s" % (c.name, n),
                                          "of an object created without optional arguments uses the value None (%s)" % e.name, e.loc, p)
                    if not bad:
                        rep.ok("fresh", "%s.%s" % (c.name, n))


def c49(ctx):
    rep = ctx.rep
    for f in ctx.prog.all_funcs():
        if isinstance(f.node, ast.Lambda) or f.outer is not None:
            continue
        base = run(ctx, f, ())
        known = set()
        for p in base:
            for e in p.events:
                if e.kind != "none":
                    continue
                if e.recv == NONE:
                    known.add(e.loc)
                    continue
                fact = next((x for x in p.facts[:e.nfacts] if x.term == ("isnone", e.recv) and x.val), None)
                if fact is None or fact.loc is None or fact.loc[2] != e.loc[2]:
                    continue        # found missing by a function that has a default for it
                later = p.facts[p.facts.index(fact) + 1:e.nfacts]
                v = None if caught(ctx, e.loc) or any(vague(x.term) or any(y[0] in ("call", "mcall") for y in T.subterms(x.term))
                                                      for x in later) else False
                rep.check(v, "found-missing", f.qual, "%s was found to be None and is used (%s)" % (T.show(e.recv)[:80], e.name), e.loc, p)
        if base:
            rep.ok("found-missing", f.qual)
        names = omittable(f)
        for p in base if public(f) else ():
            given(rep, f, names, p)
        if not names or not public(f):
            continue
        for missing in [names] + ([[x] for x in names] if len(names) > 1 else []):
            bad = False
            for p in run(ctx, f, missing):
                for e in p.events:
                    if e.kind != "none" or e.recv != NONE or e.loc in known:
                        continue
                    others = set(names) - set(missing)
                    joint = any(mentions(x.term, others) for x in p.facts[:e.nfacts])
                    bad = True
                    rep.check(None if joint or caught(ctx, e.loc) else False, "omitted", f.qual,
                              "without %s the value None is used (%s)" % (", ".join(missing), e.name), e.loc, p)
            if not bad:
                rep.ok("omitted", "%s without %s" % (f.qual, ", ".join(missing)))
    fresh(ctx)
    rep.need("omitted", 60)
    rep.need("given", 60)
    rep.need("fresh", 100)
    rep.need("found-missing", 150)


RULES = {
    "C49": (c49, "Every function evaluated with its optional arguments bound to None (one by one and all together) and with all of them given; uses of None "
            "as an object (attribute, element, iteration, arithmetic, ordering, call) per path, also of values that the path found to be None."),
}

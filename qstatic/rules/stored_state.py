"""C07: what is exported for storage is what the constructor needs and initialises."""
import ast
from .common import *
from .. import terms as T
from ..terms import const, fn, NONE
from ..loader import Class, Func, walk_local
from .storage import PLAIN, CHANGED
from .interfaces import open_, foreign_uses, receiver_is_self, resolved

NEUTRAL = PLAIN | {"reshape", "float", "int", "str", "bool", "deque", "Series", "DataFrame", "Path", "squeeze", "set", "frozenset", "sorted", "sort_index",
                   "dict", "reindex", "atleast_1d", "atleast_2d", "make_target", "array_split", "partial", "fillna"}
MATH = {"+", "-", "*", "/", "**", "neg", "abs", "sum", "mean", "sqrt", "round", "exp", "log", "cumsum", "diff", "reversed", "flip", "roll", "T", "transpose",
        "negative", "square", "min", "max"}


def serializable(prog, c):
    return any(isinstance(kw.value, ast.Name) and kw.value.id == "HDF5Serializable" for k in prog.mro(c) for kw in k.node.keywords
               if kw.arg == "metaclass")


def is_ref(t, k):
    """t is the constructor argument k"""
    if t == ("param", k):
        return True
    if t[0] == "fn" and t[1] in ("getdefault", "get", "pop") and len(t[2]) >= 2 and t[2][1] == const(k) and base_of(t[2][0])[0] == "param":
        return True
    return t[0] == "item" and t[2] == const(k) and base_of(t[1])[0] == "param"


def base_of(t):
    while t[0] in ("delitem", "setitem") or t[0] == "fn" and t[1] in ("delitem", "copy", "dict") and t[2]:
        t = t[1] if t[0] != "fn" else t[2][0]
    return t


def holds_ref(t, k):
    return any(is_ref(x, k) for x in T.subterms(t))


def strip(t, stop, changed=()):
    """('plain', None) if t is `stop` passed through neutral steps, ('changed', what) / ('other', what) otherwise"""
    worst = None
    while not stop(t):
        nxt = name = None
        if t[0] == "boolop":
            c = [x for x in t[2:] if any(stop(y) for y in T.subterms(x))]
            if len(c) != 1:
                return "other", "boolop"
            nxt, name = c[0], "copy"
        elif t[0] == "fn" and t[2]:
            c = [x for x in list(t[2]) + [v for _, v in t[3]] if any(stop(y) for y in T.subterms(x))]
            if not c:
                return "other", t[1]
            if t[1] in ("Series", "DataFrame") and not any(stop(y) for x in list(t[2][:1]) + [v for kk, v in t[3] if kk == "data"] for y in T.subterms(x)):
                return "other", "label"
            nxt, name = c[0], t[1].lstrip(".")
        elif t[0] == "mcall":
            nxt, name = t[1], t[2]
        elif t[0] == "call":
            return "other", "call"
        elif t[0] == "attr":
            nxt, name = t[1], "copy" if t[2] in ("values", "value", "name", "_value_") else t[2]
        elif t[0] == "item":
            nxt, name = t[1], "copy" if not T.is_const(t[2]) else "item"
        elif t[0] in ("num", "sum", "prod", "add", "mul", "poly", "lin", "pow", "div", "neg"):
            return "changed", t[0]
        elif t[0] == "tuple" or t[0] == "list":
            return "other", t[0]
        elif t[0] == "comp":
            return "other", "comp"
        else:
            return "other", t[0]
        if not any(stop(y) for y in T.subterms(nxt)):
            return "other", name
        if name.startswith("enum:"):
            name = "copy"
        if name in MATH or name in CHANGED and name not in NEUTRAL:
            return "changed", name
        if name in changed:
            return "changed", name
        if name not in NEUTRAL:
            worst = name
        t = nxt
    return ("other", worst) if worst else ("plain", None)


def forwarded(prog, c, f, seen=()):
    """(parameters accepted, mandatory, anything, provided) of the constructor including what it forwards to its base"""
    pos, kwonly, defaults, var, kw = f.params()
    pos = pos[1:]
    names = list(pos) + list(kwonly)
    need = [x for x in names if x not in defaults]
    if kw is None:
        return set(names), set(need), False
    sup = None
    for n in walk_local(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__" and any(
                k.arg is None and isinstance(k.value, ast.Name) and k.value.id == kw for k in n.keywords):
            sup = n
    other = any(isinstance(n, ast.Name) and n.id == kw and not in_star(f.node, n) for n in walk_local(f.node))
    if sup is None:
        return set(names), set(need), True
    base = prog.method(c, "__init__", after=f.cls) if f.cls else None
    if base is None:
        return set(names), set(need), True
    a, m, anything = forwarded(prog, c, base)
    bp = base.params()[0][1:]
    given = set(bp[:len([x for x in sup.args if not isinstance(x, ast.Starred)])]) | {k.arg for k in sup.keywords if k.arg}
    # an argument that the constructor fills in itself but takes from kwargs, if present
    took = {n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)} if other else set()
    return set(names) | (a - given) | (given & took), set(need) | (m - given), anything


def in_star(fnode, name):
    for n in walk_local(fnode):
        if isinstance(n, ast.Call) and any(k.arg is None and k.value is name for k in n.keywords):
            return True
    return False


def entries(t):
    """({key: value}, complete) of an exported dictionary"""
    if t[0] == "dict":
        d = {}
        whole = True
        for k, v in t[1]:
            if T.is_const(k) and isinstance(k[1], str):
                d[k[1]] = v
            else:
                whole = False
        return d, whole
    if t[0] == "merge":
        d, whole = {}, True
        for x in t[1:]:
            e = entries(x)
            if e is None:
                whole = False
            else:
                d.update(e[0])
                whole = whole and e[1]
        return d, whole
    return None


def reads(prog, c, uses):
    """attributes of self that methods offered by c read (outside constructor and export)"""
    out, todo, done = set(), [], set()
    skip = ("__init__", "to_hdf5", "__repr__", "__str__")
    for k in prog.mro(c):
        for n, f in k.methods.items():
            if n not in skip and resolved(prog, c, n)[1] is f and (not n.startswith("_") or n.startswith("__") or n in uses):
                todo.append(f)
        for n, f in k.getters.items():
            if n in uses and resolved(prog, c, n)[1] is f:
                todo.append(f)
        todo += list(k.setters.values())
    while todo:
        f = todo.pop()
        if f in done:
            continue
        done.add(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and receiver_is_self(n, f):
                out.add(n.attr)
                g = prog.getter(c, n.attr)
                if g is not None:
                    todo.append(g)
                g = resolved(prog, c, n.attr)[1] if n.attr not in skip else None
                if isinstance(g, Func):
                    todo.append(g)
    return out


def changes(prog, c):
    """attributes of self that change after construction"""
    out = set()
    for k in prog.mro(c):
        for f in list(k.methods.values()) + list(k.setters.values()) + list(k.getters.values()):
            if f.name in ("__init__", "to_hdf5"):
                continue
            for n in ast.walk(f.node):
                t = None
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    t = n
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    t = n.value
                    while isinstance(t, (ast.Subscript, ast.Attribute)) and not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)):
                        t = t.value
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                        "append", "extend", "insert", "pop", "clear", "remove", "update", "sort", "popleft", "appendleft", "add", "discard"):
                    t = n.func.value
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and receiver_is_self(t, f):
                    out.add(t.attr)
    return out


def mentions(init, k):
    """the argument is passed on to something the analysis may not see through"""
    for n in walk_local(init.node):
        if isinstance(n, ast.Call) and any(isinstance(y, ast.Name) and (y.id == k or y.id == "locals") for x in list(n.args) + [w.value for w in n.keywords] + [n.func]
                                           for y in ast.walk(x)):
            return True
    return False


def c07(ctx):
    rep, prog = ctx.rep, ctx.prog
    uses = foreign_uses(prog)
    count = 0
    for c in prog.classes.values():
        if not serializable(prog, c):
            continue
        exp, init = prog.method(c, "to_hdf5"), prog.method(c, "__init__")
        if exp is None or open_(exp):
            continue
        loc = (exp.module.rel, exp.node.lineno, c.name + ".to_hdf5")
        i, paths = ctx.run(c, "to_hdf5")
        if init is None:
            for p in paths:
                if p.kind == "ret":
                    e = entries(p.ret)
                    rep.check(e is not None and not e[0] or (None if e is None else False), "accepted", c.name, "the constructor takes no arguments", loc, p)
            continue
        accepted, needed_, anything = forwarded(prog, c, init)
        ii, ipaths = ctx.run(c, "__init__")
        ipaths = [p for p in ipaths if p.kind == "ret"]
        moving = changes(prog, c)
        table = {}            # argument -> {attribute: [how it is initialised]}
        lasts = []
        for p in ipaths:
            last = {}
            for e in p.events:
                if e.kind == "store" and e.name and e.args and (e.recv == SELF or e.recv[0] in ("call", "mcall", "fn", "attr", "new", "obj")):
                    last[(e.recv == SELF, e.name)] = e.args[0]
            lasts.append((p, {x: v for (own, x), v in last.items()}))
            for (own, x), v in last.items():
                for k in accepted:
                    if holds_ref(v, k):
                        table.setdefault(k, {}).setdefault(x, []).append((strip(v, lambda y: is_ref(y, k)), v, p))
        for p in paths:
            if p.kind != "ret":
                rep.check(None, "exported", c.name, "the export raises", p.loc, p)
                continue
            e = entries(p.ret)
            if e is None:
                rep.check(None if vague(p.ret) or opaque(p.ret) else False, "exported", c.name, "the export is %s, not a dictionary" % T.show(p.ret)[:100], p.loc, p)
                continue
            count += 1
            d, whole = e
            for k in d:
                rep.check(k in accepted or anything, "accepted", "%s.%s" % (c.name, k), "the exported entry %s is no argument of the constructor" % k, loc, p)
            miss = sorted(needed_ - set(d))
            rep.check(not miss or (None if not whole and not anything else False), "mandatory", c.name + ("" if not miss else ":" + ",".join(miss)),
                      "the mandatory argument %s is not exported" % ", ".join(miss), loc, p)
            for k, v in d.items():
                tab = table.get(k)
                con = "%s.%s" % (c.name, k)
                if not tab:
                    if k in accepted and ipaths:
                        lost = any(vague(y) for _, l in lasts for y in l.values()) or mentions(init, k)
                        rep.check(None if lost else False, "present-value", con, "the constructor does not keep the exported argument", loc)
                    continue
                for q, l in lasts:
                    for x in [x for x, hs in tab.items() if any(h[0][0] == "plain" for h in hs)]:
                        if x in l and not holds_ref(l[x], k) and not any(
                                (holds_ref(f.term, k) or T.contains(f.term, const(k))) and not (f.term[0] == "isinstance" and is_ref(f.term[1], k))
                                for f in q.facts):
                            rep.check(None if vague(l[x]) else False, "present-value", con + "/kept", "the constructor drops the argument and sets %s to %s" % (
                                x, T.show(l[x])[:100]), q.loc, q)
                plain = [x for x, hs in tab.items() if any(h[0][0] == "plain" for h in hs)]
                cand = plain or list(tab)
                live = [x for x in cand if x in moving]
                cand = live or cand
                hit = [x for x in cand if any(y[0] == "attr" and y[2] == x for y in T.subterms(v))]
                if not hit and v == NONE and any(is_value(p, ("attr", SELF, x), NONE) for x in cand):
                    rep.ok("present-value", con, loc)
                    continue
                if not hit:
                    rep.check(None if vague(v) or opaque(v) and not T.contains(v, SELF) else False, "present-value", con,
                              "%s is exported, but the constructor keeps the argument in %s" % (T.show(v)[:150], ", ".join(sorted(cand))), loc, p)
                    continue
                stop = lambda y: y[0] == "attr" and y[2] in hit
                es = strip(v, stop)
                gs = [h[0] for x in hit for h in tab[x]]
                verdict = True
                why = ""
                if es[0] == "changed" and not any(g[1] == es[1] for g in gs):
                    verdict, why = (False if any(g[0] == "plain" for g in gs) else None), "the export changes the value (%s)" % T.show(v)[:150]
                elif es[0] == "plain" and any(g[0] == "changed" for g in gs) and not any(y[0] == "attr" and y[1][0] == "attr" for y in T.subterms(v)):
                    g = next(h for x in hit for h in tab[x] if h[0][0] == "changed")
                    verdict, why = False, "the constructor changes the argument (%s), so a reloaded object differs" % T.show(g[1])[:150]
                elif any(y[0] == "fn" and y[1].startswith("enum:") for x in hit for h in tab[x] for y in T.subterms(h[1])) and \
                        not any(y[0] == "attr" and y[2] in ("value", "name", "_value_", "_name_") for y in T.subterms(v)):
                    verdict, why = (None if opaque(v) else False), "the state is exported as %s, from which the constructor cannot restore it" % T.show(v)[:150]
                elif es[0] == "other":
                    verdict, why = None, "exported as %s" % T.show(v)[:150]
                rep.check(verdict, "present-value", con, why, loc, p)
            # left out
            used = reads(prog, c, uses)
            for k in sorted(accepted - set(d)):
                for x, hs in table.get(k, {}).items():
                    if any(h[0][0] == "plain" for h in hs) and x in used and not anything:
                        # another exported argument may carry the same state
                        others = [k2 for k2 in d if x in table.get(k2, {})]
                        rep.check(bool(others) or (None if not whole else False), "complete", "%s.%s" % (c.name, k),
                                  "the argument %s (%s) is not exported although the object goes on using it%s" % (
                                      k, x, " and changes it" if x in moving else ""), loc, p)
            rep.ok("complete", c.name, loc)
    if not count:
        raise AnalysisBroken("no serialisable class was found")
    for rule, n in (("accepted", 100), ("mandatory", 15), ("present-value", 100), ("complete", 15)):
        rep.need(rule, n)


RULES = {
    "C07": (c07, "For every serialisable class the constructor and the export method are interpreted abstractly (base classes and forwarded keyword "
                 "arguments inlined): the relation 'argument -> attribute it initialises' is extracted from the constructor and every exported entry is "
                 "checked to be the present value of that attribute, accepted under its name, with all mandatory and all used arguments present.",
            "constructor/export correspondence by abstract interpretation of all serialisable classes (static analysis)"),
}

"""C23 (shifted gates are put back) and C24 (who sets voltages and measures)."""
import ast
from .common import *
from ..loader import walk_local
from ..terms import const, fn, item, TRUE, FALSE, NONE

SET, MEASURE, READ = "set_gate_voltages", "measure", "read_gate_voltages"


# ---------------------------------------------------------------- who
def sites(prog, names):
    """(module, class, function, node, name) of every mention of an attribute"""
    for m in prog.modules.values():
        def rec(node, cls, func):
            for s in ast.iter_child_nodes(node):
                if isinstance(s, ast.ClassDef):
                    yield from rec(s, m.classes.get(s.name) if node is m.tree else cls, func)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield from rec(s, cls, s if func is None else func)
                else:
                    if isinstance(s, ast.Attribute) and s.attr in names:
                        yield m, cls, func, s, s.attr
                    if isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id in ("getattr", "methodcaller") and \
                            any(isinstance(a, ast.Constant) and a.value in names for a in s.args):
                        yield m, cls, func, s, next(a.value for a in s.args if isinstance(a, ast.Constant) and a.value in names)
                    yield from rec(s, cls, func)
        yield from rec(m.tree, None, None)


def users(prog, name):
    """(class, function) of every mention of the method name"""
    return {(c.name if c else None, f.name if f else None) for m, c, f, n, _ in sites(prog, {name})}


def super_call(n):
    return isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and \
        n.value.func.id == "super"


def where(m, n, cls, func):
    return (m.rel, n.lineno, (cls.name + "." if cls else "") + (func.name if func else "<module>"))


def closure(prog, cls, start):
    """methods of the class that are used from nowhere but `start` and methods like it"""
    inside = {start}
    todo = [n for n in list(cls.methods) + list(cls.getters)]
    changed = True
    while changed:
        changed = False
        for n in todo:
            if n in inside or n in METHODS:
                continue
            us = users(prog, n)
            if us and all(c == cls.name and f in inside for c, f in us):
                inside.add(n)
                changed = True
    return inside


def who(ctx):
    rep, prog = ctx.rep, ctx.prog
    sub = prog.is_subclass
    tuned = None
    for m, cls, func, n, name in sites(prog, {SET, MEASURE}):
        loc = where(m, n, cls, func)
        c0 = "%s %s" % (loc[2], name)
        if super_call(n) or (cls is not None and sub(cls, "Experiment")):
            rep.ok("who", c0, loc, "experiment")
            continue
        if cls is not None and sub(cls, "Evaluator"):
            if name == MEASURE:
                rep.ok("who", c0, loc, "evaluator")
            else:
                rep.ok("who", c0, loc, "evaluator, has to restore them (C23)")
                shifting(ctx, cls, rule="restored-afterwards")
            continue
        if cls is not None and sub(cls, "Autotuner"):
            tuned = tuned or closure(prog, prog.cls("Autotuner"), "iterate")
            if name == MEASURE:
                rep.bad("who", c0, "the tuning loop starts a measurement itself", loc)
            else:
                rep.check(func is not None and func.name in tuned, "who", c0,
                          "gate voltages are set outside of a tuning iteration", loc)
            continue
        if name == SET and cls is not None and func is not None and "gui" in m.rel:
            reload_(ctx, m, cls, func, n, loc, c0)
            continue
        if name == MEASURE and cls is None and func is not None and func.name not in \
                {f.func.id for mm in prog.modules.values() for f in ast.walk(mm.tree)
                 if isinstance(f, ast.Call) and isinstance(f.func, ast.Name)}:
            rep.ok("who", c0, loc, "called by the user only")
            continue
        if cls is None and func is None:
            rep.unk("who", c0, "module level use", loc)
            continue
        if not isinstance(n, ast.Attribute) or _call_of(func, n):
            rep.bad("who", c0, "%s calls %s of the experiment" % (loc[2], name), loc)
        else:
            rep.unk("who", c0, "%s is mentioned" % name, loc)
    rep.need("who", 10)
    it = ctx.run("Autotuner", "iterate", opaque={"ready_to_tune"})
    if it[0] is not None:
        pend = it[0].initial("voltages_to_set")
        for p in it[1]:
            for e in p.calls(SET):
                rep.check(e.args[:1] == (pend,) or e.args[0] == pend or (None if vague(e.args[0]) else False), "pending",
                          "Autotuner.iterate", "sets %s, not the pending voltages" % T.show(e.args[0]), e.loc, p)
        rep.need("pending", 1)


def _call_of(func, attr):
    return any(isinstance(x, ast.Call) and x.func is attr for x in ast.walk(func)) if func else False


def reload_(ctx, m, cls, func, n, loc, c0):
    """the user's reload: recorded voltages, then an immediate restart"""
    rep, prog = ctx.rep, ctx.prog
    owner = func.name
    # the function (or the functions that use it) are connected to buttons, nothing else calls them
    names, todo = set(), [owner]
    while todo:
        x = todo.pop()
        if x in names:
            continue
        names.add(x)
        for mm, c, f, a, _ in sites(prog, {x}):
            how = _connected(mm.tree, f, a)
            if how:
                rep.check(how in ("clicked", "triggered", "pressed", "released", "returnPressed", "sigActivated"), "by-the-user",
                          c0, "%s runs on the signal %s" % (x, how), where(mm, a, c, f))
            elif f is not None and c is cls and not f.name.startswith("__"):
                todo.append(f.name)
            elif f is not None and not _call_of(f, a):
                rep.unk("by-the-user", c0, "%s is mentioned" % x, where(mm, a, c, f))
            else:
                rep.bad("by-the-user", c0, "%s is called from %s" % (x, where(mm, a, c, f)[2]), where(mm, a, c, f))
    top = owner if owner in cls.methods else None
    for x in names:
        if x in METHODS:
            top = x
    if top is None:
        return
    i, paths = ctx.run(cls, top)
    if i is None:
        return
    for p in paths:
        for e in p.calls(SET):
            k = p.index(e)
            at = e.recv[1] if e.recv[0] == "attr" else None
            later = [x for x in p.events[k + 1:] if x.kind in ("call", "store") or (x.kind == "mutate" and touches_self(x.recv))]
            if p.kind == "raise":
                rep.check(None if opaque(e.recv) else False, "restart", c0, "an error is raised after the voltages were set", p.loc, p)
                continue
            first = later[0] if later else None
            rep.check(first is not None and first.kind == "call" and first.name == "restart" and (at is None or first.recv == at),
                      "restart", c0, "the voltages are set without an immediate restart of the autotuner", e.loc, p)
            v = e.args[0] if e.args else dict(e.kw).get("new_gate_voltages")
            src = [x for x in T.subterms(v) if x[0] == "mcall" and x[2] == "get_gate_values"] if v else []
            rep.check(bool(src) or (None if v is None or vague(v) else False), "recorded", c0,
                      "sets %s, which are not recorded voltages" % (v and T.show(v)[:200]), e.loc, p)


def _connected(tree, func, attr):
    names = set()
    for x in ast.walk(func) if func is not None else ():
        if isinstance(x, ast.Assign) and x.value is attr:
            names |= {t.id for t in x.targets if isinstance(t, ast.Name)}
    for x in ast.walk(tree):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "connect" and \
                isinstance(x.func.value, ast.Attribute):
            for y in x.args:
                if any(z is attr for z in ast.walk(y)):
                    return x.func.value.attr
                if isinstance(y, ast.Name) and y.id in names and any(z is x for z in ast.walk(func)):
                    return x.func.value.attr
    return None


# ---------------------------------------------------------------- C23
def shifted(arg, orig):
    """('full'|'part', problem): how a table given to set_gate_voltages relates to the voltages read"""
    if arg[0] == "fn" and arg[1] == "addfill":
        if orig in arg[2]:
            return "full", None if dict(arg[3]).get("fill") in (const(0), None) else "other gates are filled with %s" % T.show(dict(arg[3])["fill"])
    if arg[0] == "setitem":
        how, prob = shifted(arg[1], orig) if arg[1] != orig else ("full", None)
        if not T.contains(arg[3], orig):
            return how, "a gate is set to %s, not relative to its voltage" % T.show(arg[3])[:150]
        return how, prob
    if arg[0] == "fn" and arg[1] in ("copy", "deepcopy", ".copy", ".sort_index"):
        return shifted(arg[2][0], orig) if arg[2][0] != orig else ("full", None)
    if arg[0] == "poly" and T.contains(arg, orig):
        other = [x for m, c in T.to_poly(arg).items() for x, k in m if x != orig and x[0] == "fn" and x[1] == "Series"]
        if other and any(m == ((orig, 1),) for m, c in T.to_poly(arg).items()):
            return "full", "the gates that are not shifted become NaN (the shift names only some gates)"
        return None, None
    if T.contains(arg, orig):
        return ("part" if arg[0] == "fn" and arg[1] == "Series" else None), None
    return None, "the voltages set (%s) do not depend on the voltages read" % T.show(arg)[:200]


def gate_of(arg, orig):
    """terms in the shift that name the gate: elements of a stored sequence"""
    return [x for x in T.subterms(arg) if x[0] == "elem" or (x[0] == "item" and len(x) > 2 and any(y[0] == "index" for y in T.subterms(x[2])))]


def seq_of(t):
    """(sequence, position) an element comes from"""
    if t[0] == "elem":
        return t[1], "loop"
    if t[0] == "item":
        return t[1], t[2]
    return None, None


def whats(what):
    return what not in (SET, READ) and not str(what).endswith((SET, READ))


def shifting(ctx, cls, rule=None):
    rep, prog = ctx.rep, ctx.prog
    done = ctx.cache.setdefault("shifting", set())
    funcs = [f for k in prog.mro(cls) for f in list(k.methods.values())]
    entry = [f.name for f in funcs if f.name in METHODS and f.name != "__init__" and f.cls is cls]
    seen = False
    for name in entry:
        if (cls.name, name, rule) in done:
            continue
        done.add((cls.name, name, rule))
        if not _reaches(prog, cls, prog.method(cls, name), {SET}):
            continue
        i, paths = ctx.run(cls, name, opaque={"process_raw_data"}, exc="all", exc_filter=whats)
        if i is None:
            continue
        seen = True
        c0 = "%s.%s" % (cls.name, name)
        for p in paths:
            walk(rep, c0, p, rule)
    return seen


def _reaches(prog, cls, f, names, depth=0):
    if f is None or depth > 4:
        return False
    for n in walk_local(f.node):
        if isinstance(n, ast.Attribute) and n.attr in names and not (super_call(n)):
            return True
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr not in METHODS:
            g = prog.method(cls, n.attr)
            if g is not f and _reaches(prog, cls, g, names, depth + 1):
                return True
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and any(isinstance(x, ast.Attribute) and x.attr in names for x in ast.walk(n))
               for n in ast.walk(f.node) if n is not f.node)


def walk(rep, c0, p, rule=None):
    originals, state, shift, polluted = [], "rest", None, []
    touched = any(e.kind == "call" and e.name == SET for e in p.events)
    last = None
    for e in p.events:
        if e.kind != "call":
            continue
        if e.name == READ:
            (originals if state == "rest" else polluted).append(e.res)
        elif e.name == SET:
            arg = e.args[0] if e.args else dict(e.kw).get("new_gate_voltages", NONE)
            last = e
            if arg in originals or _copy_of(arg, originals):
                state, shift = "rest", None
                continue
            if rule is None:
                if not originals:
                    rep.check(None if opaque_arg(arg) else False, "relative", c0,
                              "gates are set before their present voltages were read", e.loc, p)
                else:
                    res = [shifted(arg, o) for o in originals]
                    good = [r for r in res if r[0] and not r[1]]
                    if good:
                        rep.ok("relative", c0, e.loc)
                    else:
                        prob = next((r[1] for r in res if r[1]), None)
                        rep.check(None if prob is None or vague(arg) else False, "relative", c0, prob or T.show(arg)[:200], e.loc, p)
            state, shift = ("part" if any(_sub_of(arg, o) for o in originals) else "shifted"), (e, arg)
        elif e.name == MEASURE and touched and rule is None:
            if state == "rest":
                later = [x for x in p.events[p.index(e):] if x.kind == "call" and x.name == SET]
                rep.check(False if p.kind == "ret" or later else None, "while-shifted", c0,
                          "a measurement is made while the gates are not shifted", e.loc, p)
            elif shift is not None:
                se, sarg = shift
                own = _paired(p, e, se, sarg, originals)
                rep.check(own, "while-shifted", c0, "the measurement %s is made with the shift %s of another one" % (
                    T.show(e.args[0])[:80] if e.args else "", T.show(sarg)[:200]), e.loc, p)
    if touched:
        r = rule or "restored"
        if state == "part":
            rep.unk(r, c0, "only some gates are put back", last.loc)
        elif state != "rest":
            how = "when an error is raised" if p.kind == "raise" else "on return"
            known = shift and not vague(shift[1])
            rep.check(False if known else None, r, c0, "the gates are not put back %s%s" % (
                how, " (they are set to what was read while shifted)" if shift and shift[1] in polluted else ""), p.loc, p)
        else:
            rep.ok(r, c0, p.loc)


def opaque_arg(t):
    return t is None or vague(t)


def _copy_of(arg, originals):
    while arg[0] == "fn" and arg[1] in ("copy", "deepcopy", ".copy", ".sort_index") and arg[2]:
        arg = arg[2][0]
    return arg in originals


def _sub_of(arg, o):
    """a selection of the voltages read, without arithmetic"""
    if arg[0] == "item" and arg[1] == o:
        return True
    if arg[0] == "fn" and arg[1] == "Series":
        d = dict(arg[3]).get("data", arg[2][0] if arg[2] else NONE)
        return any(x[0] == "item" and x[1] == o for x in T.subterms(d)) and not any(x[0] == "poly" for x in T.subterms(d))
    return False


def _paired(p, e, se, sarg, originals):
    """the shift in place belongs to the same turn of the loop, and to the same position of its sequence"""
    if any(x[0] == "phi" and x[3] in se.loops for x in T.subterms(sarg)):
        return False        # the shift depends on those of earlier turns
    if se.loops != e.loops[:len(se.loops)]:
        return None if not e.loops and not se.loops else False
    gates = [g for g in gate_of(sarg, None) if g[0] in ("elem", "item")]
    ms = [g for g in gate_of(e.args[0], None)] if e.args else []
    if not gates or not ms:
        return None if not e.loops else (None if vague(sarg) else None)
    for g in gates:
        s, k = seq_of(g)
        for m in ms:
            sm, km = seq_of(m)
            if s is not None and s[0] == "fn" and s[1] in ("reversed", "sorted", "set"):
                return False
            if sm is not None and sm[0] == "fn" and sm[1] in ("reversed", "sorted", "set"):
                return False
            if k != "loop" and km != "loop" and k != km and T.is_num(T.sub(k, km)):
                return False
    return True


def c23(ctx):
    n = 0
    for c in ctx.prog.subclasses("Evaluator"):
        if shifting(ctx, c):
            n += 1
    ctx.rep.need("restored", 2)
    ctx.rep.need("while-shifted", 1)


RULES = {
    "C23": (c23, "Typestate of the gate voltages (read / shifted / put back) along every path of every evaluator method that sets "
            "voltages, with an exception forked at every measurement and analysis step; provenance of the shifted and "
            "restored tables; pairing of shift and measurement inside the loop."),
    "C24": (who, "Every mention of set_gate_voltages and measure in the package, classified by the class it stands in, with a "
            "call-graph closure for the tuning loop, a signal-connection check for the reload button and path analysis of what "
            "is set there and what follows."),
}

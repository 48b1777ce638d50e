"""C34: setting and reading gate voltages, in every experiment backend."""
import os, re
from .common import *
from ..terms import const, fn, item, TRUE, FALSE, NONE

KEEP = {"copy", "deepcopy", "Series", "dict", "list", ".to_dict", ".astype", ".sort_index", ".copy", "to_dict", "dictof",
        "float", "asarray", "array", ".to_matlab", ".map", ".apply", "abs0", ".round0", ".to_frame0"}


def plain(t):
    """t without conversions that keep every gate's value under its name"""
    while True:
        if t[0] == "mcall" and t[2] == "to_matlab" and len(t[3]) == 1:
            t = t[3][0]
        elif t[0] == "fn" and t[1] in KEEP and t[2] and not (t[1] in (".map", ".apply") and t[2][1:] != (("glob", "float"),)):
            t = t[2][0] if t[1] != "Series" or t[2] else dict(t[3]).get("data", t)
        elif t[0] == "setitem" and t[2] == ("key", plain_key(t[2])) and plain_val(t) is not None:
            t = t[1]
        elif t[0] == "comp" and t[1] == "dict" and t[2][0] == "tuple" and len(t[3]) == 1 and not t[4]:
            k, v = t[2][1]
            src = t[3][0]
            if k == ("key", src) and plain(v) == ("val", src):
                t = src
            elif k == ("elem", src) and src[0] == "attr" and src[2] == "index" and plain(v) == ("elem", src[1]):
                t = src[1]
            elif k == ("elem", src) and plain(v) in (("elem", ("vals", src)), item(src, k), ("val", src)):
                t = src
            else:
                return t
        else:
            return t


def plain_key(k):
    return k[1] if k[0] == "key" and len(k) > 1 else None


def plain_val(t):
    src = t[2][1]
    v = plain(t[3])
    return True if v == ("val", src) and (src == t[1] or plain(src) == plain(t[1])) else None


def named(idx, new):
    """the labels of the new voltages"""
    while idx[0] == "fn" and idx[1] in ("list", "tuple", "copy", "asarray", ".tolist", "array", "values") and idx[2]:
        idx = idx[2][0]
    return idx in (("attr", new, "index"), fn("keys", new), ("fn", "list", (new,), ()), ("fn", ".keys", (new,), ()))


def aligned(v, idx, new):
    """v holds, for every label in idx, the new voltage of that label"""
    v = plain(v)
    if v == new:
        return True
    if v == item(new, idx) or (v[0] == "item" and v[1] == new and v[2] == idx):
        return True
    if v[0] == "fn" and v[1] in ("values", ".to_numpy", ".tolist", "list") and v[2]:
        w = v[2][0]
        return (w == new and named(idx, new)) or w == item(new, idx)
    return False


def updates(t, new):
    """[base, problem]: t is base with exactly the new voltages put in"""
    t = plain(t)
    if t == new:
        return None, None
    if t[0] == "setitem":
        b, k, v = t[1], t[2], t[3]
        inner, prob = updates(b, new)
        if prob:
            return inner, prob
        if named(k, new) and aligned(v, k, new):
            return inner, None
        if k == ("elem", ("attr", new, "index")) and plain(v) in (("elem", new), fn("elemrow", new), ("elemrow", new), item(new, k)):
            return inner, None
        if k == ("key", new) and plain(v) == ("val", new):
            return inner, None
        return inner, "sets %s to %s" % (T.show(k)[:100], T.show(v)[:200])
    if t[0] == "fn" and t[1] == ".combine_first" and len(t[2]) == 2 and plain(t[2][0]) == new:
        return updates(t[2][1], new)
    if t[0] == "fn" and t[1] in (".fillna", "fillna") and len(t[2]) == 2 and t[2][0][0] == "fn" and \
            t[2][0][1] == ".reindex" and plain(t[2][0][2][0]) == new:
        return updates(t[2][1], new)
    if t[0] == "fn" and t[1] == ".reindex" and plain(t[2][0]) == new:
        return dict(t[3]).get("fill_value", T.NAN), None
    if t[0] == "merge":
        if plain(t[2]) == new or (t[2][0] == "dict" and t[2][1] == (("**", new),)):
            return updates(t[1], new)
    return t, None


def fields(prog, name):
    """whether the MATLAB function works on whatever field names it is given"""
    for root, dirs, files in os.walk(os.path.join(prog.repo, "qtune")):
        for f in files:
            if f == name + ".m":
                s = open(os.path.join(root, f), errors="replace").read()
                m = re.search(r"function[^(\n]*\(\s*(\w+)", s)
                return bool(m and re.search(r"fieldnames\(\s*%s\s*\)" % m.group(1), s))
    return None


def setting(ctx, c):
    rep = ctx.rep
    c0 = c.name + ".set_gate_voltages"
    i, paths = ctx.run(c, "set_gate_voltages")
    if i is None:
        return
    f = ctx.prog.method(c, "set_gate_voltages")
    new = ("param", [a for a in f.params()[0] if a != "self"][0])
    ri, rpaths = ctx.run(c, "read_gate_voltages")
    present = {plain(p.ret) for p in rpaths if p.kind == "ret"}
    sinks = 0
    for p in paths:
        if p.kind == "raise":
            continue
        done = []
        for e in p.events:
            if e.kind == "call" and e.recv is not None and e.name not in ("to_matlab", "read_gate_voltages") and \
                    any(T.contains(a, new) for a in e.args) and T.contains(e.recv, SELF):
                done.append((e, "call"))
            elif e.kind == "store" and e.recv == SELF and any(T.contains(a, new) for a in e.args):
                done.append((e, "store"))
            elif e.kind == "mutate" and e.recv is not None and e.recv[0] == "attr" and e.recv[1] == SELF:
                done.append((e, "item"))
        if not done:
            trivial = [f for f in p.facts if T.contains(f.term, new)]
            rep.check(None if trivial and not any(x[0] in ("<0", "<=0") for f in trivial for x in T.subterms(f.term)) else False,
                      "sets", c0, "no gate is set on this path", p.loc, p)
            continue
        sinks += 1
        for e, how in done:
            loc = e.loc
            if how == "item":
                k, v = (e.args + (NONE, NONE))[:2]
                if e.name in ("setitem", "update"):
                    if e.name == "update":
                        ok = plain(k) == new
                    elif e.loops:
                        ok = _loop_item(e, k, v, new, p)
                    else:
                        ok = named(k, new) and aligned(v, k, new)
                    rep.check(ok if ok or not (vague(k) or vague(v)) else None, "sets", c0,
                              "sets %s to %s" % (T.show(k)[:150], T.show(v)[:200]), loc, p)
                else:
                    rep.bad("sets", c0, "changes the voltages by %s" % e.name, loc, p)
                rep.check(e.recv in present or (None if not present else plain(e.recv) in present), "others", c0,
                          "%s is changed, which is not what is read as the present voltages" % T.show(e.recv), loc, p)
            else:
                arg = next(a for a in e.args if T.contains(a, new))
                base, prob = updates(arg, new)
                if prob:
                    rep.check(None if vague(arg) or opaque_base(base) is None else False, "sets", c0, prob, loc, p)
                    continue
                if base is None:
                    ok = fields(ctx.prog, e.name) if how == "call" else False
                    rep.check(ok, "others", c0, "%s is given the new voltages alone: the other gates lose their value"
                              % e.name, loc, p)
                    continue
                fresh = [q for q in p.events if q.kind == "call" and q.res is not None and plain(q.res) == plain(base)]
                stripped = plain(base)
                if T.contains(stripped, new):
                    rep.check(None if vague(arg) or (_exotic(stripped) and stripped[0] != "poly" and stripped[:2] != ("fn", "addfill")) else False, "sets", c0,
                              "the voltages %s are set" % T.show(arg)[:300], loc, p)
                elif stripped in present or _same(stripped, present):
                    rep.ok("others", c0, loc)
                    rep.ok("sets", c0, loc)
                else:
                    rep.check(None if vague(stripped) else False, "others", c0,
                              "the other gates are set to %s instead of their present voltage" % T.show(stripped)[:200],
                              loc, p)
    if not sinks:
        rep.bad("sets", c0, "no path sets a voltage", (f.module.rel, f.node.lineno, f.qual))


def _same(t, present):
    """t is a present-voltage read (calls numbered differently count as the same read)"""
    def strip(x):
        return tuple(strip(y) if isinstance(y, tuple) else y for y in (x[:-1] + (0,) if x and x[0] == "mcall" else x))
    return strip(t) in {strip(x) for x in present}


def _exotic(t):
    return any(x[0] == "fn" and x[1].startswith(".") for x in T.subterms(t)) or any(x[0] == "comp" for x in T.subterms(t))


def opaque_base(b):
    return True if b is None or not vague(b) else None


def _loop_item(e, k, v, new, p):
    idx = ("attr", new, "index")
    v = plain(v)
    if k in (("elem", idx), ("elem", fn("keys", new)), ("elem", new)):
        ok = v in (("elem", new), fn("elemrow", new), ("elemrow", new), item(new, k), ("item", new, k), ("elem", ("vals", new)))
        return ok and not _guards(p, e, new)
    if k == ("key", new):
        return v in (("val", new), item(new, k)) and not _guards(p, e, new)
    if k[0] in ("elem", "key") and (v == item(new, k) or v == ("item", new, k)):
        inside = [f for f in p.facts_before(e) if f.loops and f.val and f.term[0] == "in" and f.term[1] == k]
        return True if inside else None
    return False


def _guards(p, e, new):
    """a condition inside the loop restricts which gates are set"""
    return any(f.loops and T.contains(f.term, new) for f in p.facts_before(e) if f.loops == e.loops)


def is_own(p, ref):
    """an in-place change of the object would be visible in the experiment"""
    held = {p.i.self_ref} | {r for (b, a), r in p.st.heap.items() if b == p.i.self_ref}
    return any(r in held for r in p.i.roots(ref))


def reading(ctx, c):
    rep = ctx.rep
    c0 = c.name + ".read_gate_voltages"
    i, paths = ctx.run(c, "read_gate_voltages")
    if i is None:
        return
    for p in paths:
        if p.kind == "raise":
            continue
        t = p.ret
        srt, partial, unknown = False, None, False
        while True:
            if t[0] == "fn" and t[1] == ".sort_index":
                kw = dict(t[3])
                if kw.get("ascending", TRUE) == TRUE and "key" not in kw and len(t[2]) == 1:
                    srt = True
                elif not srt:
                    unknown = unknown or vague(t)
                t = t[2][0]
            elif t[0] in ("item",) and t[2][0] == "fn" and t[2][1] == "sorted":
                srt = srt or (not dict(t[2][3]) and len(t[2][2]) == 1)
                if not _all_names(t[2][2][0], t[1]):
                    unknown = True
                t = t[1]
            elif t[0] == "fn" and t[1] == ".reindex" and t[2][-1][0] == "fn" and t[2][-1][1] == "sorted":
                srt = srt or not dict(t[2][-1][3])
                unknown = unknown or not _all_names(t[2][-1][2][0], t[2][0])
                t = t[2][0]
            elif t[0] == "fn" and t[1] in ("copy", "deepcopy", "Series", ".astype", "dict", "dictof", ".copy"):
                if t[1] == "Series" and (len(t[2]) != 1 or dict(t[3]).keys() - {"dtype", "copy"}):
                    unknown = True
                    break
                t = t[2][0]
            elif t[0] in ("item", "fn") and t[0] == "item" or (t[0] == "fn" and t[1] in (".dropna", ".drop", ".iloc", ".head", ".tail", ".filter")):
                partial = t
                break
            else:
                break
        if T.contains(t, ("fn",)) or vague(t):
            unknown = True
        rep.check(True if srt else (None if unknown or any(x[0] == "fn" and x[1] == "sorted" for x in T.subterms(p.ret)) else False),
                  "sorted", c0, "the voltages are not returned in sorted order: %s" % T.show(p.ret)[:200], p.loc, p)
        rep.check(None if unknown else partial is None, "every-gate", c0,
                  "only part of the voltages is returned: %s" % T.show(p.ret)[:200], p.loc, p)
        own = is_own(p, p.val)
        rep.check(not own or None if unknown else not own, "copy", c0,
                  "the caller gets the experiment's own table, a change of it would change the voltages", p.loc, p)
        eff = [e for e in p.events if (e.kind == "store" and e.recv == SELF) or (
            e.kind == "mutate" and e.recv is not None and e.recv[0] == "attr" and e.recv[1] == SELF and
            (e.recv_ref is None or is_own(p, e.recv_ref)))]
        rep.check(not eff, "read-only", c0, "reading changes %s" % (eff and T.show(eff[0].recv)), p.loc, p)


def _all_names(a, b):
    return plain(a) == plain(b) or (a[0] == "attr" and a[2] == "index" and plain(a[1]) == plain(b)) or \
        (a[0] == "fn" and a[1] in ("keys", ".keys") and plain(a[2][0]) == plain(b))


def c34(ctx):
    base = ctx.prog.cls("Experiment")
    for c in sorted(ctx.prog.subclasses("Experiment"), key=lambda c: c.name):
        for name, rule in (("set_gate_voltages", setting), ("read_gate_voltages", reading)):
            f = ctx.prog.method(c, name)
            if f is None or f.cls is base:
                continue
            rule(ctx, c)
    ctx.rep.need("sets", 3)
    ctx.rep.need("sorted", 3)


RULES = {
    "C34": (c34, "Abstract interpretation of set_gate_voltages and read_gate_voltages of every Experiment subclass: provenance, "
            "per gate name, of the table handed to the hardware layer (new value under its own name, otherwise the value "
            "just read), restriction-free loops, sortedness, completeness and freshness of what is read."),
}

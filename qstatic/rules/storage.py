"""C06, C08, C09: storage writer, reader, reserved objects and the asynchronous writer."""
import ast
from .common import *
from ..loader import walk_local
from ..report import Report
from .. import terms as T
from ..terms import const, fn, TRUE, FALSE, NONE

# for every kind of object the names it is an instance of (closed table of the supported kinds)
KINDS = {
    "dict": {"dict", "Mapping", "MutableMapping", "Dict", "Iterable", "Sized", "Container", "Collection", "object"},
    "list": {"list", "Sequence", "MutableSequence", "List", "Iterable", "Sized", "Container", "Collection", "object"},
    "tuple": {"tuple", "Sequence", "Tuple", "Iterable", "Sized", "Container", "Collection", "object"},
    "serializable": {"object"},
    "DataFrame": {"DataFrame", "NDFrame", "object", "Iterable", "Sized"},
    "Series": {"Series", "NDFrame", "object", "Iterable", "Sized"},
    "ndarray": {"ndarray", "object", "Iterable", "Sized"},
    "float": {"float", "Number", "Real", "Complex", "object"},
    "int": {"int", "Number", "Integral", "Rational", "Real", "Complex", "object"},
    "bool": {"bool", "int", "Number", "Integral", "Rational", "Real", "Complex", "object"},
    "complex": {"complex", "Number", "Complex", "object"},
    "numpy float": {"generic", "number", "inexact", "floating", "float64", "float", "Number", "Real", "Complex", "object"},
    "numpy int": {"generic", "number", "integer", "signedinteger", "int64", "Number", "Integral", "Real", "Complex", "object"},
    "numpy bool": {"generic", "bool_", "object"},
    "str": {"str", "Sequence", "Iterable", "Sized", "Container", "Collection", "object"},
    "None": {"NoneType", "object"},
    "unsupported": {"object"},
}
KNOWN_TYPES = set().union(*KINDS.values()) | {"Group", "Dataset", "Reference", "set", "frozenset", "bytes", "File"}
CONTAINERS = ("dict", "list", "tuple", "serializable")
SHARED = CONTAINERS + ("DataFrame", "Series", "ndarray")
SCALARS = ("float", "int", "bool", "complex", "numpy float", "numpy int", "numpy bool")
DUMMY = "A serializable class"


def truth(t, atom):
    """three-valued truth of a condition; atom(t) gives True / False / None"""
    if T.is_bool_const(t):
        return t[1]
    v = atom(t)
    if v is not None:
        return v
    if t[0] == "not":
        v = truth(t[1], atom)
        return None if v is None else not v
    if t[0] in ("and", "or"):
        vs = [truth(x, atom) for x in t[1]]
        stop = t[0] == "or"
        if stop in vs:
            return stop
        return None if None in vs else not stop
    return None


def compatible(paths, atom):
    """[(path, certain)] of the paths whose conditions do not contradict the situation"""
    out = []
    for p in paths:
        sure = True
        for f in p.facts:
            v = truth(f.term, atom)
            if v is None:
                sure = False
            elif v != f.val:
                break
        else:
            out.append((p, sure))
    return out


def function(ctx, name):
    for f in ctx.prog.all_funcs():
        if f.qual == name and f.module.rel.endswith("storage.py"):
            return f
    raise AnalysisBroken("storage has no function %s" % name)


class Writer:
    OPAQUE = ("_to_hdf5", "get_version", "time_string", "_get_dtype")

    def __init__(self, ctx):
        self.ctx, self.f = ctx, function(ctx, "_to_hdf5")
        self.parent, self.name, self.obj, self.memo = [("param", x) for x in self.f.params()[0][:4]]
        self.i, self.paths = ctx.run_func(self.f, opaque=self.OPAQUE)
        if self.i is None:
            raise AnalysisBroken("_to_hdf5 could not be analysed")

    def atom(self, kind, known=False):
        names = KINDS[kind]

        def a(t):
            if t[0] == "isinstance" and t[1] == self.obj and isinstance(t[2], str):
                return t[2] in names if t[2] in KNOWN_TYPES or t[2] in names else None
            if t == T.is_none(self.obj):
                return kind == "None"
            if t[0] == "in" and t[2] == self.memo and t[1] == fn("id", self.obj):
                return known
            if t[0] == "isnone" and T.contains(t[1], self.memo) and T.contains(t[1], fn("id", self.obj)):
                return not known
            if t[0] == "in" and T.contains(t[1], fn("type", self.obj)) and "serializables" in repr(t[2]):
                return kind == "serializable"
            if t[0] == "fn" and t[1] == "hasattr" and t[2][0] == self.obj and t[2][1] == const("to_hdf5"):
                return kind == "serializable"
            if t[0] in ("is", "==") and fn("type", self.obj) in t[1:]:
                o = t[2] if t[1] == fn("type", self.obj) else t[1]
                n = o[1] if o[0] in ("builtin", "glob") else None
                n = n.split(".")[-1] if isinstance(n, str) else None
                return None if n is None else n == kind
            return None
        return a

    def created(self, p):
        return [e for e in p.calls("create_group") + p.calls("create_dataset") if e.recv == self.parent]

    def kids(self, p):
        return [e for e in p.calls(self.f.name)]

    def arg(self, e, k):
        return e.arg(k, self.f.params()[0][k])

    def tag(self, p, res):
        """(found, tag term)"""
        for e in p.events:
            if e.kind == "mutate" and e.recv is not None and e.recv == ("attr", res, "attrs") and e.args and e.args[0] == const("#type"):
                return True, e.args[1]
            if e.kind == "call" and e.recv == ("attr", res, "attrs") and e.name in ("create", "modify") and e.arg(0, "name") == const("#type"):
                return True, e.arg(1, "data")
        return False, None

    def attrs(self, p, res):
        """{attribute name: stored term}"""
        out = {}
        for e in p.events:
            if e.recv == ("attr", res, "attrs"):
                if e.kind == "mutate" and e.name == "setitem":
                    out[e.args[0]] = e.args[1]
                elif e.kind == "call" and e.name in ("create", "modify"):
                    out[e.arg(0, "name")] = e.arg(1, "data")
        return out

    def memoized(self, p):
        return [e for e in p.events if e.kind == "mutate" and e.name == "setitem" and T.root(e.recv) == self.memo and
                e.args and T.contains(e.args[0], fn("id", self.obj))]


class Reader:
    def __init__(self, ctx):
        self.ctx, self.f = ctx, function(ctx, "_from_hdf5")
        self.root, self.h, self.memo = [("param", x) for x in self.f.params()[0][:3]]
        self.i, self.paths = ctx.run_func(self.f, opaque=("_from_hdf5",))
        if self.i is None:
            raise AnalysisBroken("_from_hdf5 could not be analysed")

    def atom(self, h, group, tag, known=False, ref=False, text=False, scalar=False, content_ref=False):
        """situation: h (already resolved if a reference) is a group / dataset with the tag (None: no tag)"""
        attrs = ("attr", h, "attrs")
        tagt = T.item(attrs, const("#type"))

        def a(t):
            if t[0] == "isinstance":
                if t[1] == self.h and t[2] == "Reference":
                    return ref
                if t[1] == h and t[2] in ("Group", "File"):
                    return group if t[2] == "Group" else False
                if t[1] == h and t[2] == "Dataset":
                    return not group
                if t[2] == "Reference" and T.contains(t[1], h):
                    return content_ref
                return None
            if t[0] == "in" and t[2] == self.memo and t[1] == ("attr", h, "id"):
                return known
            if t[0] == "in" and t[1] == const("#type") and t[2] == attrs:
                return tag is not None
            if t[0] == "==" and tagt in t[1:]:
                o = t[2] if t[1] == tagt else t[1]
                if T.is_const(o):
                    return None if tag is None else o[1] == tag
                return None
            if t[0] == "in" and t[1] == tagt:
                if "serializables" in repr(t[2]):
                    return tag == DUMMY
                if t[2][0] in ("tuple", "list", "set"):
                    return any(x == const(tag) for x in t[2][1])
            if t[0] == "isnone" and t[1][0] == "fn" and T.contains(t[1], tagt):
                return tag is None
            if t[0] == "isnone" and "check_string_dtype" in repr(t[1]):
                return not text
            if t[0] == "==0" and "'shape'" in repr(t) and T.contains(t, ("tuple", ())):
                return scalar
            if t[0] == "==" and ("tuple", ()) in t[1:] and "'shape'" in repr(t):
                return scalar
            return None
        return a

    def kids(self, p):
        return p.calls(self.f.name)

    def remembered(self, p, h):
        return [e for e in p.events if e.kind == "mutate" and e.name == "setitem" and T.root(e.recv) == self.memo and
                e.args and e.args[0] == ("attr", h, "id")]


def tri(found, sure, term=None):
    """status of an expectation that was not found on a path"""
    if found:
        return True
    return False if sure and not (term is not None and vague(term)) else None


def c08(ctx):
    rep = ctx.rep
    w, r = Writer(ctx), Reader(ctx)
    c0, c1 = w.f.qual, r.f.qual
    tags = {}
    # ---- writer
    for kind in KINDS:
        ps = compatible(w.paths, w.atom(kind))
        c = "%s/%s" % (c0, kind)
        if kind == "unsupported":
            for p, sure in ps:
                rep.check(p.kind == "raise" or (None if not sure else False), "rejected", c,
                          "an object of an unsupported kind is dropped without an error", p.loc, p)
            continue
        if not ps:
            rep.unk("stored", c, "no path stores an object of kind %s" % kind)
        for p, sure in ps:
            if p.kind == "raise":
                rep.check(False if sure else None, "stored", c, "an object of kind %s is rejected" % kind, p.loc, p)
                continue
            made = w.created(p)
            if len(made) != 1:
                rep.check(tri(False, sure), "stored", c, "an object of kind %s is written %d times" % (kind, len(made)), p.loc, p)
                continue
            e = made[0]
            res = e.res
            rep.check(tri(e.arg(0, "name") == w.name, sure, e.arg(0, "name")), "stored", c, "the object is written under %s instead of its name"
                      % T.show(e.arg(0, "name") or NONE), e.loc, p)
            group = e.name == "create_group"
            found, tag = w.tag(p, res)
            attrs = w.attrs(p, res)
            if kind in CONTAINERS:
                rep.check(group, "stored", c, "a %s is not written as a group" % kind, e.loc, p)
                src = w.obj
                if kind == "serializable":
                    src = next((x.res for x in p.calls("to_hdf5") if x.recv == w.obj), None)
                    rep.check(src is not None or tri(False, sure), "stored", c, "the object is not asked for its state", e.loc, p)
                if src is not None:
                    children(rep, w, p, sure, kind, src, res, c)
            else:
                rep.check(not group, "stored", c, "a %s is written as a group" % kind, e.loc, p)
                data = e.arg(2, "data") if len(e.args) > 2 else e.kw.get("data")
                if kind != "None":
                    same = data is not None and T.contains(data, w.obj)
                    rep.check(tri(same and carried(data, [w.obj]) is not False, sure, None if same else data), "data", c,
                              "%s is written instead of the object" % T.show(data or NONE), e.loc, p)
            if kind == "serializable":
                rep.check(tri(found and T.contains(tag, fn("type", w.obj)), sure, tag), "tag", c, "the class is not recorded", e.loc, p)
                t = DUMMY
            else:
                if found and not (T.is_const(tag) and isinstance(tag[1], str)):
                    rep.unk("tag", c, "tag %s" % T.show(tag), e.loc)
                    continue
                t = tag[1] if found else None
            old = tags.setdefault(kind, (group, t, attrs, p, sure, e))
            if old[:2] != (group, t):
                rep.unk("tag", c, "several representations", e.loc)
            # remembered
            if kind in SHARED:
                m = w.memoized(p)
                rep.check(tri(any(T.contains(x.args[1], res) for x in m), sure), "stored-once", c, "a %s that was written is not remembered: it is "
                          "stored again for every reference to it" % kind, p.loc, p)
            if kind == "serializable" and src is not None:
                alive = [x for x in p.events if x.kind == "mutate" and any(a is not None and T.contains(a, src) for a in x.args) and
                         T.root_of(x.recv, w.memo)]
                vg = [x for x in p.events if x.kind in ("mutate", "store") and any(a is not None and T.contains(a, src) for a in x.args)]
                keeps = [x for x in w.memoized(p) if T.contains(x.args[1], w.obj) and x.args[1][0] in ("tuple", "list")]
                rep.check(True if alive or keeps else (None if vg or not sure else False), "identity", c, "the exported state is not kept alive "
                          "while its identity is used to recognise objects: another object at the same address is stored as a reference to it",
                          e.loc, p)
    # ---- shared objects
    for kind in SHARED:
        for p, sure in compatible(w.paths, w.atom(kind, known=True)):
            if p.kind != "ret":
                rep.check(tri(False, sure), "reference", c0 + "/" + kind, "an object that is already stored is rejected", p.loc, p)
                continue
            made = w.created(p)
            data = made[0].kw.get("data", made[0].arg(2, "data") if len(made[0].args) > 2 else None) if made else None
            good = len(made) == 1 and made[0].name == "create_dataset" and data is not None and T.contains(data, fn("id", w.obj)) and \
                T.contains(data, w.memo) and any(x[0] == "attr" and x[2] == "ref" for x in T.subterms(data))
            rep.check(tri(good, sure, data), "reference", c0 + "/" + kind, "a %s that is already stored is not written as a reference to the stored one"
                      % kind, p.loc, p)
    # ---- reader
    for kind, (group, tag, attrs, wp, wsure, we) in tags.items():
        c = "%s/%s" % (c1, kind)
        for ref in (False, True):
            h = T.item(r.root, r.h) if ref else r.h
            for text in ((False, True) if kind == "Series" else (False,)):
                sit = r.atom(h, group, tag, ref=ref, text=text, scalar=kind in SCALARS)
                ps = compatible(r.paths, sit)
                if not ps:
                    rep.unk("restored", c, "no path for tag %s" % tag)
                for p, sure in ps:
                    if p.kind != "ret":
                        rep.check(tri(False, sure), "restored", c, "what was written for a %s (tag %s) is refused on reading" % (kind, tag), p.loc, p)
                        continue
                    ok, txt = restored(r, p, kind, h, attrs, w, text)
                    rep.check(ok if ok is not False else tri(False, sure, p.ret), "restored", c + ("/text" if text else ""),
                              "a %s is read back %s" % (kind, txt), p.loc, p)
                    if kind in SHARED:
                        m = r.remembered(p, h)
                        good = any(x.args[1] == p.ret or x.args[1] in (("dict", ()), ("list", ())) and p.ret[0] == "comp" for x in m)
                        rep.check(tri(good, sure, p.ret) if not (m and any(vague(x.args[1]) for x in m)) else None, "one-object", c,
                                  "a restored %s is not remembered: every reference to it becomes a separate object" % kind, p.loc, p)
    for ref in (False, True):
        h = T.item(r.root, r.h) if ref else r.h
        for p, sure in compatible(r.paths, r.atom(h, True, "dict", known=True, ref=ref)):
            rep.check(tri(p.kind == "ret" and p.ret == T.item(r.memo, ("attr", h, "id")), sure, p.ret), "one-object", c1 + "/known",
                      "an object that is already restored is not returned", p.loc, p)
        # a dataset that holds a reference
        for p, sure in compatible(r.paths, r.atom(h, False, None, ref=ref, scalar=True, content_ref=True)):
            good = p.kind == "ret" and any(e.res == p.ret and T.contains(r_arg(r, e, 1), h) and r_arg(r, e, 2) == r.memo for e in r.kids(p))
            rep.check(tri(good, sure, p.ret), "dereferenced", c1, "a stored reference is not resolved to the object", p.loc, p)
    for rule, n in (("stored", 15), ("rejected", 1), ("restored", 20), ("one-object", 12), ("stored-once", 7), ("reference", 7),
                    ("identity", 1), ("dereferenced", 2)):
        rep.need(rule, n)


def r_arg(r, e, k):
    return e.arg(k, r.f.params()[0][k]) or NONE


def children(rep, w, p, sure, kind, src, res, c):
    kids = w.kids(p)
    if kind in ("list", "tuple"):
        idx = lambda t: t[0] == "fn" and t[1] == "str" and t[2][0][0] == "index"
        vals = {("elem", src)}
    else:
        idx = lambda t: t == ("key", src) or t == ("elem", fn("keys", src)) or t == ("elem", src)
        vals = {("val", src), T.item(src, ("elem", src)), T.item(src, ("key", src))}
    if not kids:
        # a comprehension or another construction
        rep.check(tri(False, sure) if src not in [a for e in p.events for a in e.args] else None, "children", c,
                  "the content of a %s is not written" % kind, p.loc, p)
        return
    for e in kids:
        g, n, v, m = [w.arg(e, k) or NONE for k in range(4)]
        good = g == res and v in vals and T.root(m) == w.memo
        rep.check(tri(good, sure, v), "children", c, "the content of a %s is written as %s into %s" % (kind, T.show(v), T.show(g)), e.loc, p)
        rep.check(True if idx(n) else (None if vague(n) or T.contains(n, src) or n[0] == "fn" else tri(False, sure)), "children-names", c,
                  "an entry of a %s is written under the name %s" % (kind, T.show(n)), e.loc, p)
        # under a condition?
        if e.loops:
            inner = [f for f in p.facts if f.loops]
            rep.check(not inner or None, "children-all", c, "entries are written conditionally", e.loc, p)


PLAIN = {"asarray", "array", "list", "tuple", "Index", "tolist", "to_list", "to_numpy", "copy", "asanyarray", "ascontiguousarray", "asstr", "decode",
         "astype", "to_index", "ravel", "squeeze", "deepcopy", "str_", "ensure_text"}
CHANGED = {"sorted", "reversed", "set", "frozenset", "unique", "sort_values", "sort_index", "abs", "T", "transpose", "flip", "sort", "fliplr",
           "flipud", "roll", "dropna", "fillna", "drop_duplicates", "nan_to_num", "round", "-", "+", "*", "/", "sum", "mean"}


def carried(v, want):
    """does v hand on `want` unchanged: True / False (changed by something known) / None"""
    while v not in want:
        name = None
        if v[0] == "fn" and v[2]:
            name, nxt = v[1], v[2][0]
        elif v[0] == "mcall":
            name, nxt = v[2], v[1]
        elif v[0] == "attr":
            name, nxt = v[2], v[1]
            name = "copy" if name == "values" else name
        elif v[0] == "item" and v[2] in (("const", Ellipsis), ("tuple", ())):
            name, nxt = "copy", v[1]
        elif v[0] == "comp" and v[1] in ("list", "tuple"):
            return None
        if name is None or not any(T.contains(nxt, w) for w in want):
            return None
        if name in CHANGED or name == "item":
            return False
        if name not in PLAIN:
            return None
        v = nxt
    return True


def attr_of(attrs, what):
    return [k for k, v in attrs.items() if v == what]


def restored(r, p, kind, h, attrs, w, text):
    ret = p.ret
    kids = [e for e in r.kids(p)]
    if kind in ("dict", "serializable"):
        ok = any(r_arg(r, e, 1) in (("val", h), T.item(h, ("key", h)), T.item(h, ("elem", h)), T.item(h, ("elem", fn("keys", h)))) and
                 r_arg(r, e, 0) == r.root and T.root(r_arg(r, e, 2)) == r.memo for e in kids)
        if not ok:
            return (None if vague(ret) else False), "as %s" % T.show(ret)[:200]
        kid = next(e for e in kids)
        pairs = [x for x in T.subterms(ret) if x[0] == "comp" and x[1] == "dict"]
        named = any(x[2][0] == "tuple" and x[2][1][0] in (("key", h), ("elem", h), ("elem", fn("keys", h))) and
                    T.contains(x[2][1][1], kid.res) for x in pairs)
        if not named:
            return (None if not pairs or vague(ret) else False), "with other names: %s" % T.show(ret)[:200]
        if any(x[4] for x in pairs):
            return None, "conditionally"
        if kind == "dict":
            return (ret[0] == "comp" or None), "as %s" % T.show(ret)[:100]
        good = ret[0] in ("mcall", "call") and any(x[0] == "item" and "serializables" in repr(x[1]) and
                                                   T.contains(x[2], ("attr", h, "attrs")) for x in T.subterms(ret))
        return (True if good else (None if vague(ret) or opaque(ret) else False)), "not by calling its class: %s" % T.show(ret)[:200]
    if kind in ("list", "tuple"):
        if ret[0] != "comp" or not kids:
            return None if kids or vague(ret) else False, "as %s" % T.show(ret)[:200]
        for e in kids:
            x = r_arg(r, e, 1)
            if not (x[0] == "item" and x[1] == h and x[2][0] == "fn" and x[2][1] == "str" and x[2][2][0][0] == "index"):
                named = x in (("val", h), ("elem", fn("values", h))) or x[0] == "item" and x[2] in (("elem", h), ("elem", fn("keys", h)), ("key", h)) or \
                    x in (("elem", ("vals", h)), ("elem", ("items", h)), T.item(("elem", ("items", h)), const(1)))
                return (False if named else None), "in the order of the entries' names instead of their numbers"
            if T.root(r_arg(r, e, 2)) != r.memo:
                return False, "without the table of restored objects"
        if ret[4] or any(f.loops for f in p.facts):
            return None, "conditionally"
        if ret[1] not in ("list", "tuple"):
            return None, "as %s" % ret[1]
        return ret[1] == kind, "as a %s" % ret[1]
    if kind in ("DataFrame", "Series"):
        if not (ret[0] == "fn" and ret[1] == kind):
            return (None if vague(ret) else False), "as %s" % T.show(ret)[:200]
        kw = dict(ret[3])
        for k, v in zip(("data", "index", "columns"), ret[2]):
            kw.setdefault(k, v)
        for part in ("index", "columns")[:2 if kind == "DataFrame" else 1]:
            names = attr_of(attrs, ("attr", w.obj, part))
            v = kw.get(part)
            if not names:
                return (False if not any(vague(x) for x in attrs.values()) and ("attr", w.obj, part) not in
                        [y for x in attrs.values() for y in T.subterms(x)] else None), "without its %s, which is not written" % part
            want = [T.item(("attr", h, "attrs"), n) for n in names]
            if v is None or not any(T.contains(v, x) for x in want):
                return (None if v is not None and vague(v) else False), "with %s as its %s, which was written as %s" % (
                    T.show(v or NONE), part, T.show(names[0]))
            if carried(v, want) is False:
                return False, "with its %s changed: %s" % (part, T.show(v))
        d = kw.get("data")
        if d is None or not T.contains(d, h) or any(T.contains(d, ("attr", h, x)) for x in ("attrs", "id")):
            return (None if d is not None and vague(d) else False), "with the data %s" % T.show(d or NONE)
        if carried(d, [h]) is False:
            return False, "with its data changed: %s" % T.show(d)
        if text and not ("asstr" in repr(d) or "decode" in repr(d) or "astype" in repr(d)):
            return (None if vague(d) or opaque(d) else False), "with bytes instead of text"
        return True, ""
    if kind == "str":
        if not T.contains(ret, h):
            return (None if vague(ret) else False), "as %s" % T.show(ret)
        if "asstr" in repr(ret) or "decode" in repr(ret):
            return True, ""
        return (None if vague(ret) or opaque(ret) else False), "as bytes (%s)" % T.show(ret)
    if kind == "None":
        return is_value(p, ret, NONE), "as %s" % T.show(ret)
    if T.contains(ret, h):
        return carried(ret, [h]) is not False, "changed: %s" % T.show(ret)
    return (None if vague(ret) else False), "as %s" % T.show(ret)


# ------------------------------------------------------------------------------------------------ reserved objects
LOADERS = {"from_hdf5": 1, "load_auto_tuner": 1, "ParallelHDF5Reader": 0}


def load_sites(ctx):
    """whoever loads hands on the object that replaces the placeholder"""
    rep, prog = ctx.rep, ctx.prog
    for f in prog.all_funcs():
        for n in walk_local(f.node):
            if not isinstance(n, ast.Call):
                continue
            called = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)
            loc = (f.module.rel, n.lineno, f.qual)
            con = "%s -> %s" % (f.qual, called)
            if called in LOADERS:
                if f.name == called or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                k = LOADERS[called]
                e = next((w.value for w in n.keywords if w.arg == "reserved"), n.args[k] if len(n.args) > k else None)
                if f.outer is not None:
                    rep.unk("load-site", con, "nested function", loc)
                    continue
                v = substitute(prog, f, e)
                rep.check(v, "load-site", con, "the objects to be substituted are %s" % ("not handed on" if e is None else ast.unparse(e)), loc)
            elif called in ("map", "submit", "partial") and any(isinstance(a, ast.Name) and a.id == "from_hdf5" or
                                                                isinstance(a, ast.Attribute) and a.attr == "from_hdf5" for a in n.args):
                con = "%s -> from_hdf5" % f.qual
                k = next(j for j, a in enumerate(n.args) if getattr(a, "id", getattr(a, "attr", None)) == "from_hdf5")
                e = n.args[k + 2] if len(n.args) > k + 2 else next((w.value for w in n.keywords if w.arg == "reserved"), None)
                e = resolve_local(f, e)
                if called == "map" and isinstance(e, ast.Call) and e.args and ast.unparse(e.func).split(".")[-1] in ("repeat", "cycle"):
                    e = e.args[0]
                rep.check(substitute(prog, f, e), "load-site", con, "the objects to be substituted are %s" % (
                    "not handed on" if e is None else ast.unparse(e)), loc)
    rep.need("load-site", 4)


def resolve_local(f, e):
    for _ in range(4):
        if not isinstance(e, ast.Name):
            break
        defs = [n.value for n in walk_local(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        if len(defs) != 1:
            break
        e = defs[0]
    return e


def substitute(prog, f, e):
    """the expression is the table of reserved objects the function was given, or names the live experiment"""
    e = resolve_local(f, e)
    if e is None:
        return False
    if isinstance(e, ast.Constant):
        return False
    params = f.params()[0] + f.params()[1]
    if isinstance(e, ast.Name):
        return True if e.id == "reserved" and e.id in params else (False if e.id in params and "reserved" in params else None)
    pairs = None
    if isinstance(e, ast.Dict) and all(k is not None for k in e.keys):
        pairs = [(k.value if isinstance(k, ast.Constant) else None, v) for k, v in zip(e.keys, e.values)]
    elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict" and not e.args and all(k.arg for k in e.keywords):
        pairs = [(k.arg, k.value) for k in e.keywords]
    if pairs is not None:
        if any(k is None for k, v in pairs):
            return None
        v = resolve_local(f, dict(pairs).get("experiment"))
        if v is None or isinstance(v, ast.Constant):
            return False
        if isinstance(v, ast.Name):
            return True if v.id.strip("_") == "experiment" else None
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "getattr" and len(v.args) > 1 and \
                isinstance(v.args[1], ast.Constant):
            v = ast.Attribute(v.args[0], v.args[1].value, ast.Load())
        if isinstance(v, ast.Attribute) and v.attr.strip("_") == "experiment":
            owner = ast.unparse(resolve_local(f, v.value)).lower()
            tuner = any(isinstance(n, ast.Attribute) and n.attr.strip("_").replace("_", "").lower() == "autotuner" for n in walk_local(f.node))
            return False if "history" in owner and tuner and "tuner" not in owner else True
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self":
            vals = constructed(prog, f, v.attr)
            return False if vals and not any("exp" in ast.unparse(x).lower() for x in vals) else None
        return None
    if isinstance(e, ast.Attribute):
        if e.attr.strip("_") == "reserved":
            return True
        if isinstance(e.value, ast.Name) and e.value.id == "self":
            vals = constructed(prog, f, e.attr)
            if vals:
                return True if any("reserved" in ast.unparse(v) for v in vals) else False
    return None


def constructed(prog, f, name):
    """what the constructor of the function's class stores under the name"""
    init = prog.method(f.cls, "__init__") if f.cls is not None else None
    if init is None or init.cls is not f.cls:
        return []
    return [resolve_local(init, n.value) for n in walk_local(init.node) if isinstance(n, ast.Assign) and
            any(isinstance(t, ast.Attribute) and t.attr == name for t in n.targets)]


def c09(ctx):
    rep = ctx.rep
    load_sites(ctx)
    w = function(ctx, "to_hdf5")
    rec = function(ctx, "_to_hdf5")
    target, name, obj, res_ = [("param", x) for x in w.params()[0][:4]]
    i, paths = ctx.run_func(w, opaque=Writer.OPAQUE)
    seen = 0
    for p in paths:
        if p.kind != "ret":
            continue
        calls = p.calls(rec.name)
        rep.check(len(calls) == 1 or None, "written", w.qual, "the object is written %d times" % len(calls), p.loc, p)
        for e in calls:
            a = [e.arg(k, rec.params()[0][k]) or NONE for k in range(4)]
            rep.check(True if a[1] == name and a[2] == obj else (None if vague(a[2]) else False), "written", w.qual, "%s is written under %s" % (
                T.show(a[2]), T.show(a[1])), e.loc, p)
            given = p.truth(res_)
            if given is False or p.truth(T.is_none(res_)) is True or any(
                    f.term == fn("len", res_) or (f.term[0] == "==0" and T.contains(f.term, fn("len", res_))) and f.val for f in p.facts):
                continue
            seen += 1
            table = a[3]
            # placeholders made for every reserved entry before the object
            ds = [x for x in p.calls("create_dataset") + p.calls("create_group") if x.recv == a[0] and p.index(x) < p.index(e)]
            keys = (("key", res_), ("elem", res_), ("elem", fn("keys", res_)))
            vals = (("val", res_), T.item(res_, ("elem", res_)), T.item(res_, ("key", res_)), ("elem", fn("values", res_)))
            named = [x for x in ds if x.arg(0, "name") in keys]
            late = [x for x in p.calls("create_dataset") if x.arg(0, "name") in keys and p.index(x) > p.index(e)]
            rep.check(True if named else (False if late or not ds and not vague(table) else None), "placeholder", w.qual + "/name",
                      "no placeholder with the name of a reserved object is written before the object" + (", but afterwards" if late else ""),
                      e.loc, p)
            for x in named:
                tag = [y for y in p.events if y.recv == ("attr", x.res, "attrs") and const("#type") in y.args]
                rep.check(any(const("#reserved") in y.args for y in tag) or (None if any(vague(z) for y in tag for z in y.args) else False),
                          "placeholder", w.qual + "/tag", "the placeholder is not marked as reserved", x.loc, p)
                data = x.kw.get("data")
                rep.check(data is None or (None if vague(data) else not T.contains(data, res_)), "placeholder", w.qual + "/empty",
                          "the reserved object itself is written", x.loc, p)
                # registered under the identity of the value
                reg = T.subterms(table)
                ids = [fn("id", v) for v in vals]
                good = any(T.contains(table, d) for d in ids) and T.contains(table, x.res)
                rep.check(True if good else (None if vague(table) and T.contains(table, res_) else False), "registered", w.qual,
                          "the reserved object is not registered as already stored before the object is written (table %s)" %
                          T.show(table)[:200], e.loc, p)
    rep.check(seen > 0 or None, "placeholder", w.qual, "reserved objects not found")
    # the memo is consulted before anything else is done with an object
    wr = Writer(ctx)
    for kind in KINDS:
        for p, sure in compatible(wr.paths, wr.atom(kind, known=True)):
            made = wr.created(p)
            data = made[0].kw.get("data") if len(made) == 1 else None
            rep.check(tri(p.kind == "ret" and data is not None and T.contains(data, wr.memo) and not p.calls("to_hdf5"), sure, data),
                      "registered-first", wr.f.qual + "/" + kind,
                      "a registered %s is written itself instead of its placeholder" % kind, p.loc, p)
    # reading
    f = function(ctx, "from_hdf5")
    rr = function(ctx, "_from_hdf5")
    src, rsv = [("param", x) for x in f.params()[0][:2]]
    i, paths = ctx.run_func(f, opaque=("_from_hdf5", "_import_all"))
    n = 0
    for p in paths:
        if p.kind != "ret":
            rep.check(None, "substituted", f.qual, "reading raises", p.loc, p)
            continue
        calls = p.calls(rr.name)
        rep.check(len(calls) >= 1 and p.ret == calls[-1].res or (None if vague(p.ret) else False), "substituted", f.qual + "/result",
                  "the restored object is not returned", p.loc, p)
        tagged = None
        for x in p.facts:
            if const("#reserved") in T.subterms(x.term) and x.term[0] == "==":
                tagged = x.val
        for e in calls[-1:]:
            root, h, table = [e.arg(k, rr.params()[0][k]) or NONE for k in range(3)]
            if tagged is True:
                n += 1
                keys = (("key", root), ("elem", root), ("elem", fn("keys", root)))
                want = [T.item(rsv, k) for k in keys]
                good = any(T.contains(table, x) for x in want)
                rep.check(True if good else (None if vague(table) else False), "substituted", f.qual, "a placeholder is not replaced by the object "
                          "supplied under its name before the rest is restored (table %s)" % T.show(table)[:200], e.loc, p)
                if good:
                    idt = [("attr", x, "id") for x in (("val", root), T.item(root, keys[0]), T.item(root, keys[1]))]
                    rep.check(any(T.contains(table, x) for x in idt) or (None if vague(table) else False), "substituted", f.qual + "/identity",
                              "the supplied object is not filed under its placeholder", e.loc, p)
            elif tagged is False:
                rep.check(not T.contains(table, rsv) or None, "substituted-only", f.qual, "an ordinary entry is replaced by a supplied object", e.loc, p)
    rep.check(n > 0 or None, "substituted", f.qual, "the placeholders are not recognised")
    # the autotuner
    cls = ctx.prog.cls("Autotuner")
    i, paths = ctx.run(cls, "to_hdf5")
    exp = experiment_of(ctx, cls)
    keys = set()
    for p in paths:
        if p.kind == "ret" and p.ret[0] == "dict":
            keys |= {k for k, v in p.ret[1] if v in exp}
    rep.check(bool(keys) or None, "autotuner", "Autotuner.to_hdf5", "the export of the experiment is not found")
    i, paths = ctx.run(cls, "reserved", "get")
    for p in paths:
        if p.kind == "ret":
            reserved_dict(rep, p, p.ret, exp, keys, "Autotuner.reserved", p.loc)
    i, paths = ctx.run(cls, "asynchrone_writer", "get", opaque=("AsynchronousHDF5Writer",))
    k = 0
    for p in paths:
        for e in p.calls("AsynchronousHDF5Writer"):
            k += 1
            reserved_dict(rep, p, e.arg(0, "reserved") or NONE, exp, keys, "Autotuner.asynchrone_writer", e.loc)
        for e in [x for x in p.events if x.kind == "new" and x.name == "AsynchronousHDF5Writer"]:
            k += 1
            reserved_dict(rep, p, e.arg(0, "reserved") or NONE, exp, keys, "Autotuner.asynchrone_writer", e.loc)
    rep.check(k > 0 or None, "autotuner", "Autotuner.asynchrone_writer", "the creation of the writer is not found")
    # the writer's snapshot: copied experiments are recognised by the identity of their copy
    sub = Ctx(ctx.prog, Report("C06"))
    try:
        c06(sub)
    except AnalysisBroken as e:
        rep.unk("copied-together", "AsynchronousHDF5Writer.write", str(e))
    for rule, construct, status, msg, loc in sub.rep.obs:
        if rule == "copied-together":
            if status == "violation":
                rep.bad(rule, construct, msg, loc)
            else:
                rep.obs.append((rule, construct, status, msg, loc))
    # copies of the experiment
    base = ctx.prog.cls("Experiment")
    for c in [base] + [x for x in ctx.prog.subclasses("Experiment") if x is not base]:
        m = ctx.prog.method(c, "__deepcopy__")
        if m is None:
            rep.bad("opaque-copy", c.name, "the live experiment is copied with the snapshot: the reserved object is a copy of it", (c.module.rel, c.node.lineno, c.name))
            continue
        if m.cls is not c:
            continue
        i, paths = ctx.run(c, "__deepcopy__")
        for p in paths:
            if p.kind == "ret":
                rep.check(True if p.ret in (SELF, fn("id", SELF)) else (None if vague(p.ret) or opaque(p.ret) else False), "opaque-copy", c.name + ".__deepcopy__",
                          "a copy of the experiment is %s, which other objects may be mistaken for" % T.show(p.ret), p.loc, p)
    for rule, m in (("placeholder", 3), ("registered", 1), ("registered-first", 15), ("substituted", 3), ("autotuner", 2), ("opaque-copy", 1), ("copied-together", 1)):
        rep.need(rule, m)


def experiment_of(ctx, cls):
    """the attributes in which the constructor keeps the experiment"""
    i, paths = ctx.run(cls, "__init__")
    out = {("attr", SELF, "_experiment"), ("attr", SELF, "experiment")}
    for p in paths:
        out |= {("attr", SELF, e.name) for e in stores(p) if e.args and e.args[0] == ("param", "experiment")}
    return out


def reserved_dict(rep, p, d, exp, keys, c, loc):
    if d[0] != "dict":
        rep.check(None if vague(d) or opaque(d) or d[0] != "const" else False, "autotuner", c, "the reserved objects are %s" % T.show(d)[:100], loc, p)
        return
    mine = {k for k, v in d[1] if v in exp}
    rep.check(bool(mine) or (None if vague(d) else False), "autotuner", c, "the experiment is not reserved", loc, p)
    if mine and keys:
        rep.check(mine == keys or (None if any(vague(k) for k in mine) else False), "autotuner", c + "/name", "the experiment is reserved under %s, but exported as %s" % (
            "/".join(T.show(k) for k in mine), "/".join(T.show(k) for k in keys)), loc, p)


# ------------------------------------------------------------------------------------------------ asynchronous writer
def c06(ctx):
    rep = ctx.rep
    cls = ctx.prog.cls("AsynchronousHDF5Writer")
    worker = None
    # -- construction
    i, paths = ctx.run(cls, "__init__")
    wattr = qattr = rattr = None
    tfun = None
    for p in paths:
        if p.kind != "ret":
            continue
        starts = [e for e in p.calls("start")]
        rep.check(len(starts) == 1 or (None if any(vague(e.recv or NONE) for e in starts) else False), "started", "AsynchronousHDF5Writer",
                  "the worker is started %d times" % len(starts), p.loc, p)
        for e in starts:
            for s in stores(p):
                if s.args and s.args[0] == e.recv:
                    wattr = s.name
            kw = dict(e.recv[4]) if e.recv[0] == "mcall" else dict(e.recv[3]) if e.recv[0] == "call" else {}
            a = kw.get("args")
            t = kw.get("target")
            if t is not None and t[0] == "gfunc":
                tfun = t[1] if isinstance(t[1], str) else None
            if a is not None and a[0] == "tuple" and a[1]:
                for s in stores(p):
                    if s.args and s.args[0] == a[1][0] and s.args[0] != NONE:
                        qattr = s.name
                rep.check(qattr is not None or (None if vague(a) else False), "started", "AsynchronousHDF5Writer/queue",
                          "the worker does not read from the writer's queue", e.loc, p)
        for s in stores(p):
            if s.args and s.args[0] == ("param", "reserved"):
                rattr = s.name
    if wattr is None or qattr is None:
        raise AnalysisBroken("AsynchronousHDF5Writer: worker and queue not recognised")
    worker_f = next((f for f in ctx.prog.all_funcs() if tfun and (f.module.name + "." + f.qual == tfun or f.qual == tfun.split(".")[-1]) and
                     f.module.rel.endswith("storage.py")), None)
    W, Q = ("attr", SELF, wattr), ("attr", SELF, qattr)
    R = ("attr", SELF, rattr) if rattr else None
    # -- write
    f = ctx.prog.method(cls, "write")
    obj, fname = [("param", x) for x in f.params()[0][1:3]]
    i, paths = ctx.run(cls, "write", opaque=("time_string",), deep_distinct=True)
    order = None
    for p in paths:
        c = "AsynchronousHDF5Writer.write"
        al = alive(p, W)
        puts = [e for e in p.calls("put") + p.calls("put_nowait") if e.recv == Q]
        if al is False:
            rep.check(p.kind == "raise", "refused", c, "a request to a stopped writer is accepted", p.loc, p)
            rep.check(not puts, "refused", c + "/queue", "a request is queued although the writer is stopped", p.loc, p)
            continue
        if al is None:
            rep.check(None if any(vague(x.term) for x in p.facts) else False, "refused", c, "a request is %s without looking whether the "
                      "worker is alive" % ("queued" if puts else "handled"), p.loc, p)
        if p.kind != "ret":
            rep.check(None, "snapshot", c, "a request to a running writer raises", p.loc, p)
            continue
        if len(puts) != 1:
            rep.bad("snapshot", c, "a request is queued %d times" % len(puts), p.loc, p)
            continue
        e = puts[0]
        t = e.arg(0, "obj") or NONE
        if t[0] not in ("tuple", "list"):
            rep.unk("snapshot", c, "queued task %s" % T.show(t), e.loc)
            continue
        o = [k for k, x in enumerate(t[1]) if T.contains(x, obj)]
        # the object alone, not the copied pair
        comp = {k: snapshot(x, obj, R) for k, x in enumerate(t[1])}
        of = [k for k, v in comp.items() if v and v[0] == "obj"]
        rf = [k for k, v in comp.items() if v and v[0] == "reserved"]
        ff = [k for k, x in enumerate(t[1]) if x == fname]
        nf = [k for k, x in enumerate(t[1]) if x == ("param", "name") or ("time_string" in repr(x))]
        if len(of) != 1 or len(rf) != 1 or len(ff) != 1:
            rep.check(None if vague(t) else False, "snapshot", c, "the queued task is %s" % T.show(t)[:300], e.loc, p)
            continue
        co, cr = comp[of[0]], comp[rf[0]]
        rep.check(co[1] is not None, "snapshot", c, "the object itself is queued, not a copy made at the time of the call", e.loc, p)
        rep.check(cr[1] is not None and co[1] is not None and cr[1] == co[1], "copied-together", c,
                  "the object and the reserved objects are not copied together: the copies in the object are not recognised as reserved", e.loc, p)
        order = {"obj": of[0], "reserved": rf[0], "file": ff[0], "name": nf[0] if nf else None}
    # -- the worker
    if worker_f is None:
        raise AnalysisBroken("the worker function is not recognised")
    q = ("param", worker_f.params()[0][0])
    i, paths = ctx.run_func(worker_f, opaque=("to_hdf5",), exc="all", exc_filter=lambda what: what == "to_hdf5" or "to_hdf5" in str(what))
    if not paths:
        raise AnalysisBroken("the worker could not be analysed")
    wf = function(ctx, "to_hdf5")
    failing = normal = stop = 0
    for p in paths:
        c = worker_f.qual
        gets = [e for e in p.calls("get") + p.calls("get_nowait") if e.recv == q]
        # Queue.get is a plain value in the analysis: the task is fn get(queue)
        done = [e for e in p.calls("task_done") if e.recv == q]
        rep.check(len(done) == 1, "task-done", c, "a task taken from the queue is reported as done %d times%s" % (
            len(done), " when writing it fails" if failed(p) else ""), p.loc, p)
        task = marker(p, q)
        wr = p.calls("to_hdf5")
        if failed(p):
            failing += 1
            logged = [e for e in p.events if e.kind == "log" and e.name in ("exception", "error", "critical", "warning", "warn", "log")]
            rep.check(bool(logged), "logged", c, "an error while writing is not logged", p.loc, p)
        elif task is True:
            stop += 1
            rep.check(p.kind == "ret" and not wr, "stop-marker", c, "the stop marker does not end the worker", p.loc, p)
        elif task is False:
            normal += 1
            rep.check(p.kind != "ret", "keeps-running", c, "the worker ends after a task that is no stop marker", p.loc, p)
            rep.check(len(wr) == 1, "written", c, "a task is written %d times" % len(wr), p.loc, p)
            for e in wr:
                a = {k: e.arg(n, wf.params()[0][n]) for n, k in enumerate(("file", "name", "obj", "reserved"))}
                for k, v in a.items():
                    if order is None or order.get(k) is None:
                        continue
                    if v is None:
                        rep.bad("task-fields", c + "/" + k, "the %s of the task is not used" % k, e.loc, p)
                    elif v[0] == "item" and T.is_num(v[2]):
                        rep.check(int(v[2][1]) == order[k], "task-fields", c + "/" + k, "entry %d of the task is used as %s, which was queued as entry %d" % (
                            int(v[2][1]), k, order[k]), e.loc, p)
                    else:
                        rep.unk("task-fields", c + "/" + k, T.show(v), e.loc)
        else:
            rep.check(None if any(vague(x.term) for x in p.facts) else False, "stop-marker", c, "the worker does not look for the stop marker", p.loc, p)
    rep.check(failing > 0 or None, "logged", worker_f.qual, "no failing write found")
    # -- join
    for name in ("join",):
        i, paths = ctx.run(cls, name)
        for p in paths:
            c = "AsynchronousHDF5Writer." + name
            if p.kind == "raise":
                rep.bad("join-worker", c, "joining raises", p.loc, p)
                continue
            al = alive(p, W)
            put = [e for e in p.calls("put") + p.calls("put_nowait") if e.recv == Q]
            j = [e for e in p.calls("join") if e.recv == W]
            qj = [e for e in p.calls("join") if e.recv == Q]
            rep.check(not qj, "join-worker", c + "/queue", "the writer waits for its queue, which a dead worker never empties", qj[0].loc if qj else p.loc, p)
            if al is not False:
                rep.check(bool(put) and all(e.arg(0, "obj") == NONE for e in put) or (None if put and any(vague(e.arg(0, "obj") or NONE) for e in put) else False),
                          "marker-sent", c, "a running worker is not sent the stop marker", p.loc, p)
                rep.check(len(put) <= 1 or None, "marker-sent", c + "/once", "the marker is sent several times", p.loc, p)
                rep.check(bool(j) or (None if any(vague(x.term) for x in p.facts) else False), "join-worker", c, "the end of the worker is not awaited", p.loc, p)
                for e in j:
                    rep.check(not (e.args or e.kw) or (None if any(vague(x) for x in e.args) else False), "join-worker", c + "/timeout",
                              "the worker is not awaited to its end", e.loc, p)
                if put and j:
                    rep.check(p.index(put[0]) < p.index(j[0]), "join-order", c, "the end of the worker is awaited before it is sent the marker", j[0].loc, p)
    i, paths = ctx.run(cls, "restart")
    for p in paths:
        if p.kind == "ret":
            c = "AsynchronousHDF5Writer.restart"
            al = alive(p, W)
            j = [e for e in p.calls("join") if e.recv == W]
            st = p.calls("start")
            rep.check(len(st) == 1 and (al is False or bool(j) and p.index(j[0]) < p.index(st[0])), "restart", c,
                      "restarting does not end the old worker before it starts a new one", p.loc, p)
    for rule, n in (("snapshot", 1), ("copied-together", 1), ("refused", 2), ("task-done", 3), ("logged", 1), ("stop-marker", 1),
                    ("keeps-running", 1), ("task-fields", 4), ("marker-sent", 1), ("join-worker", 2), ("join-order", 1), ("restart", 1)):
        rep.need(rule, n)


def alive(p, W):
    for f in p.facts:
        t = f.term
        if t[0] == "mcall" and t[1] == W and t[2] == "is_alive":
            return f.val
    return None


def snapshot(x, obj, R):
    """('obj' | 'reserved', copy it belongs to or None) if x is the object / the reserved objects, copied or not"""
    if x == obj:
        return "obj", None
    if R is not None and x == R:
        return "reserved", None
    if x[0] == "item" and T.is_num(x[2]) and x[1][0] == "fn" and x[1][1] == "deepcopy":
        d = x[1]
        k = int(x[2][1])
        if d[2][0][0] in ("tuple", "list") and k < len(d[2][0][1]):
            y = d[2][0][1][k]
            if y == obj:
                return "obj", d
            if y == R:
                return "reserved", d
    if x[0] == "fn" and x[1] in ("dict", "copy") and len(x[2]) == 1 and x[2][0] == R:
        return "reserved", None
    if x[0] == "fn" and x[1] == "deepcopy":
        m = x[2][1] if len(x[2]) > 1 else None
        if x[2][0] == obj:
            return "obj", m if m is not None else x
        if x[2][0] == R:
            return "reserved", m if m is not None else x
    return None


def failed(p):
    return p.kind == "raise" or any(e.kind == "handler" for e in p.events)


def marker(p, q):
    """did this path find the stop marker?"""
    for f in p.facts:
        if f.term[0] == "isnone" and T.contains(f.term, q) or f.term[0] == "is" and T.contains(f.term, q):
            return f.val
    return None


RULES = {
    "C06": (c06, "The methods of AsynchronousHDF5Writer and its worker function are interpreted abstractly over all paths, including the path on "
                 "which writing raises; the rules relate the queued task, the copies it consists of, the calls of the worker and the join protocol.",
            "path-sensitive protocol (typestate) analysis of writer and worker by abstract interpretation, with exceptional paths"),
    "C08": (c08, "Every path of the recursive writer and reader is interpreted abstractly; for each of the supported kinds of objects the paths "
                 "compatible with it are selected, the representation the writer produces is extracted and the reader's paths for exactly this "
                 "representation are checked to rebuild the same kind from the same parts; the tables of stored and restored objects are tracked.",
            "case-complete comparison of writer and reader by abstract interpretation of both functions (static analysis)"),
    "C09": (c09, "Abstract interpretation of to_hdf5 / from_hdf5 and of the autotuner's declaration of reserved objects: placeholders exist and are "
                 "registered before the object is written, and are substituted before the rest is read.",
            "dataflow and ordering analysis on the paths of writer, reader and declaration (static analysis)"),
}

"""Abstract domain of labelled series: evaluates terms over small label models.  A series is an ordered tuple of labels with one
symbolic value per label; what is computed is which value ends up under which label (positional and aligned assignments are told
apart).  Anything else in a term is reported as undecided."""
from fractions import Fraction
from . import terms as T


class Undecided(Exception):
    pass


class Fails(Exception):
    """the operation raises for this model"""


class S:
    """labelled series; name-less"""

    def __init__(self, labels, vals):
        self.labels, self.vals = tuple(labels), tuple(vals)

    def get(self, l):
        if l not in self.labels:
            raise Fails("label %s is missing" % (l,))
        return self.vals[self.labels.index(l)]

    def __eq__(self, o):
        return isinstance(o, S) and (self.labels, self.vals) == (o.labels, o.vals)

    def same(self, o):
        """equal as mapping, whatever the order"""
        return isinstance(o, S) and dict(zip(self.labels, self.vals)) == dict(zip(o.labels, o.vals))

    def show(self):
        return "{%s}" % ", ".join("%s: %s" % (l, show(v)) for l, v in zip(self.labels, self.vals))


class Ix(tuple):
    """index / list of labels"""


def show(v):
    if isinstance(v, S):
        return v.show()
    return T.show(v) if isinstance(v, tuple) and v and isinstance(v[0], str) else str(v)


def lab(x):
    """a label (string) of a value"""
    if isinstance(x, str):
        return x
    if x == T.NAN:
        raise Fails("NaN is used as label")
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "const" and isinstance(x[1], str):
        return x[1]
    raise Undecided("%s used as label" % (show(x),))


def labels_of(v):
    if isinstance(v, S):
        return v.vals
    if isinstance(v, (Ix, list)):
        return v
    raise Undecided("not labels")


class Labels:
    """leaves: term -> S | Ix | term (scalar)"""

    def __init__(self, leaves, frames=()):
        self.leaves = dict(leaves)
        self.frames = dict(frames)       # (table term, column) is an item of a leaf already

    def ev(self, t, env=()):
        """env: tuple of (source term, position) of the loops around t"""
        if t in self.leaves:
            return self.leaves[t]
        k = t[0]
        if k == "const":
            return t
        if k == "attr" and t[2] == "index":
            v = self.ev(t[1], env)
            if isinstance(v, S):
                return Ix(v.labels)
            raise Undecided(T.show(t))
        if k == "attr" and t[2] == "size":
            return self.fn(("fn", "len", (t[1],), ()), env)
        if k == "attr" and t[2] in ("values", "array"):
            return ("arr", tuple(labels_of(self.ev(t[1], env))))
        if k in ("key", "val", "elem"):
            j = dict(env).get(t[1])
            if j is None:
                raise Undecided("loop element outside of its loop: %s" % T.show(t))
            v = self.ev(t[1], env)
            if isinstance(v, S):
                return v.labels[j] if k == "key" else v.vals[j]
            if isinstance(v, Ix):
                return v[j]
            raise Undecided(T.show(t))
        if k in ("item", "iloc") and t[2][0] == "slice":
            v = self.ev(t[1], env)
            n = [x if x == T.NONE else self.ev(x, env) for x in t[2][1:]]
            if not all(x == T.NONE or T.is_num(x) for x in n):
                raise Undecided(T.show(t))
            sl = slice(*[None if x == T.NONE else int(x[1]) for x in n])
            if isinstance(v, S):
                return S(v.labels[sl], v.vals[sl])
            if isinstance(v, Ix):
                return Ix(v[sl])
            if isinstance(v, tuple) and v and v[0] == "arr":
                return ("arr", v[1][sl])
            raise Undecided(T.show(t))
        if k in ("item", "iloc"):
            return self.item(self.ev(t[1], env), self.ev(t[2], env), k)
        if k == "index":
            return Ix(self.ev(("attr", t[1], "index"), env))
        if k == "setitem":
            return self.assign(t, env)
        if k == "poly":
            return self.poly(t, env)
        if k == "select":
            v, m = self.ev(t[1], env), self.cond(t[2], env)
            if isinstance(m, S):
                m = m.vals
            if isinstance(v, S) and isinstance(m, (list, tuple)) and len(m) == len(v.labels):
                return S([l for l, c in zip(v.labels, m) if c], [x for x, c in zip(v.vals, m) if c])
            if isinstance(v, Ix) and isinstance(m, (list, tuple)) and len(m) == len(v):
                return Ix(l for l, c in zip(v, m) if c)
            raise Undecided(T.show(t))
        if k in ("list", "tuple"):
            return Ix(self.ev(x, env) for x in t[1])
        if k == "comp":
            return self.comp(t, env)
        if k == "dict":
            return S([lab(self.ev(a, env)) for a, _ in t[1]], [self.ev(b, env) for _, b in t[1]])
        if k == "ite":
            c = self.truth(t[1], env)
            return self.ev(t[2] if c else t[3], env)
        if k == "fn":
            return self.fn(t, env)
        raise Undecided(T.show(t))

    def item(self, v, i, k="item"):
        mask = i.vals if isinstance(i, S) else i
        if isinstance(v, (S, Ix)) and isinstance(mask, (list, tuple)) and mask and all(isinstance(x, bool) for x in mask):
            own = list(v.labels) if isinstance(v, S) else list(v)
            if isinstance(i, S) and isinstance(v, S):
                keep = [l for l in own if i.get(l)]
            elif len(mask) == len(own):
                keep = [l for l, c in zip(own, mask) if c]
            else:
                raise Fails("mask of another length")
            return S(keep, [v.get(l) for l in keep]) if isinstance(v, S) else Ix(keep)
        if isinstance(i, str):
            i = ("const", i)
        if isinstance(v, S):
            if k == "item":
                if isinstance(i, S):
                    ls = [lab(x) for x in i.vals]
                elif isinstance(i, Ix):
                    ls = [lab(x) for x in i]
                else:
                    return v.get(lab(i))
                return S(ls, [v.get(l) for l in ls])
        arr = isinstance(v, tuple) and not isinstance(v, Ix) and v and v[0] == "arr"
        if (isinstance(v, (S, Ix)) or arr) and isinstance(i, tuple) and not isinstance(i, Ix) and T.is_num(i):
            x = v.vals if isinstance(v, S) else v[1] if arr else v
            if -len(x) <= i[1] < len(x):
                return x[int(i[1])]
            raise Fails("position %s of %d" % (i[1], len(x)))
        raise Undecided("item")

    def sources(self, t, env):
        """loops whose elements occur in t and that are not bound"""
        bound = dict(env)
        out = []
        def go(x):
            if not isinstance(x, tuple) or not x:
                return
            if x[0] in ("key", "val", "elem") and len(x) == 2 and x[1] not in bound:
                if x[1] not in out:
                    out.append(x[1])
                return
            if x[0] == "comp":
                for s in x[3]:
                    go(s)
                return
            for y in x:
                if isinstance(y, tuple):
                    go(y)
        go(t)
        return out

    def size(self, src, env):
        v = self.ev(src, env)
        return len(v.labels) if isinstance(v, S) else len(v)

    def assign(self, t, env):
        b = self.ev(t[1], env)
        if not isinstance(b, S):
            raise Undecided(T.show(t))
        src = self.sources(t[2], env) or self.sources(t[3], env)
        if len(src) > 1:
            raise Undecided("two loops")
        if src:
            for j in range(self.size(src[0], env)):
                e = env + ((src[0], j),)
                b = self.put(b, self.ev(t[2], e), self.ev(t[3], e), False)
            return b
        v, al = t[3], False
        if v[0] == "fn" and v[1] == "aligned":
            v, al = v[2][0], True
        return self.put(b, self.ev(t[2], env), self.ev(v, env), al)

    def put(self, b, key, v, aligned):
        vals = dict(zip(b.labels, b.vals))
        order = list(b.labels)
        mask = key.vals if isinstance(key, S) else key
        if isinstance(mask, (list, tuple)) and mask and all(isinstance(x, bool) for x in mask):
            if isinstance(key, S):
                key = Ix(l for l in order if key.get(l))
            elif len(mask) == len(order):
                key = Ix(l for l, c in zip(order, mask) if c)
            else:
                raise Fails("mask of another length")
        if isinstance(key, (S, Ix)):
            ls = [lab(x) for x in labels_of(key)]
            for l in ls:
                if l not in vals:
                    raise Fails("assigns to label %s, which the series does not have" % l)
            if isinstance(v, S) and aligned:
                xs = [v.get(l) if l in v.labels else T.NAN for l in ls]
            elif isinstance(v, S):
                xs = v.vals
            elif isinstance(v, Ix):
                xs = list(v)
            elif isinstance(v, tuple) and v and v[0] == "arr":
                xs = v[1]
            else:
                xs = [v] * len(ls)
            if len(xs) != len(ls):
                raise Fails("%d values for %d labels" % (len(xs), len(ls)))
            vals.update(zip(ls, xs))
        else:
            l = lab(key)
            if l not in vals:
                order.append(l)
            vals[l] = v
        return S(order, [vals[l] for l in order])

    def lift(self, f, xs):
        """elementwise with alignment by label"""
        ser = [x for x in xs if isinstance(x, S)]
        arr = [x for x in xs if isinstance(x, tuple) and x and x[0] == "arr"]
        if not ser and not arr:
            return f(*xs)
        if not ser:
            n = len(arr[0][1])
            if any(len(a[1]) != n for a in arr):
                raise Fails("arrays of different length")
            return ("arr", tuple(f(*[x[1][j] if x in arr else x for x in xs]) for j in range(n)))
        ls = list(ser[0].labels)
        if any(set(x.labels) != set(ls) for x in ser):
            ls = sorted(set().union(*[x.labels for x in ser]))
        if any(len(a[1]) != len(ls) for a in arr):
            raise Fails("arrays of different length")
        out = []
        for j, l in enumerate(ls):
            ys = []
            for x in xs:
                if isinstance(x, S):
                    ys.append(x.get(l) if l in x.labels else T.NAN)
                elif x in arr:
                    ys.append(x[1][j])
                else:
                    ys.append(x)
            out.append(T.NAN if T.NAN in ys else f(*ys))
        return S(ls, out)

    def poly(self, t, env):
        parts = []
        for m, c in t[1]:
            x = ("const", c)
            for a, e in m:
                v = self.ev(a, env)
                x = self.lift(lambda p, q, e=e: T.mul(p, T.power(q, e)), (x, v))
            parts.append(x)
        tot = parts[0] if parts else ("const", Fraction(0))
        for x in parts[1:]:
            tot = self.lift(T.add, (tot, x))
        return tot

    def comp(self, t, env):
        kind, elt, srcs, conds = t[1:5]
        if len(srcs) != 1:
            raise Undecided("comprehension over several sources")
        out = []
        src = srcs[0]
        for j in range(self.size(src, env)):
            e = env + ((src, j),)
            if all(self.truth(c, e) for c in conds):
                if kind == "dict":
                    out.append((lab(self.ev(elt[1][0], e)), self.ev(elt[1][1], e)))
                else:
                    out.append(self.ev(elt, e))
        if kind == "dict":
            return S([a for a, _ in out], [b for _, b in out])
        return Ix(out)

    def fn(self, t, env):
        name, a, kw = t[1].lstrip("."), t[2], dict(t[3])
        if name in ("copy", "deepcopy", "list", "tuple", "Index", "aligned", "iter", "float", "squeeze") and len(a) == 1:
            v = self.ev(a[0], env)
            return Ix(v.labels) if name in ("list", "tuple", "Index") and isinstance(v, S) and name == "Index" else v
        if name in ("values", "asarray", "array", "to_numpy") and len(a) >= 1:
            v = self.ev(a[0], env)
            return ("arr", tuple(labels_of(v))) if isinstance(v, (S, Ix)) else v
        if name in ("intersection", "union", "setdiff") and len(a) == 2:
            x, y = (self.labs(self.ev(b, env)) for b in a)
            if name == "intersection":
                return Ix(l for l in x if l in y)
            if name == "setdiff":
                return Ix(sorted(l for l in x if l not in y))
            return Ix(list(x) + [l for l in y if l not in x])
        if name in ("set", "sorted", "keys"):
            x = self.labs(self.ev(a[0], env))
            return Ix(sorted(set(x))) if name != "keys" else Ix(x)
        if name in ("len", "size") and len(a) == 1:
            v = self.ev(a[0], env)
            if isinstance(v, S):
                return ("const", Fraction(len(v.labels)))
            if isinstance(v, Ix):
                return ("const", Fraction(len(v)))
            if isinstance(v, tuple) and v and v[0] == "arr":
                return ("const", Fraction(len(v[1])))
        if name == "dropna":
            v = self.ev(a[0], env)
            if isinstance(v, S):
                return S([l for l, x in zip(v.labels, v.vals) if x != T.NAN], [x for x in v.vals if x != T.NAN])
        if name == "sort_values" and len(a) == 1 and not kw:
            v = self.ev(a[0], env)
            if isinstance(v, Ix):
                return Ix(sorted(self.labs(v)))
        if name == "sort_index":
            v = self.ev(a[0], env)
            if isinstance(v, S):
                ls = sorted(v.labels)
                return S(ls, [v.get(l) for l in ls])
        if name == "reindex":
            v, i = self.ev(a[0], env), self.ev(a[1] if len(a) > 1 else kw.get("index", kw.get("labels")), env)
            fill = self.ev(kw["fill_value"], env) if "fill_value" in kw else T.NAN
            ls = self.labs(i)
            if isinstance(v, S):
                return S(ls, [v.get(l) if l in v.labels else fill for l in ls])
        if name == "drop" and len(a) == 2:
            v, i = self.ev(a[0], env), self.labs(self.ev(a[1], env))
            if isinstance(v, S):
                return S([l for l in v.labels if l not in i], [x for l, x in zip(v.labels, v.vals) if l not in i])
        if name in ("isna", "notna"):
            v = self.ev(a[0], env)
            if isinstance(v, S):
                return S(v.labels, [((x == T.NAN) == (name == "isna")) for x in v.vals])
            return (v == T.NAN) == (name == "isna")
        if name == "isin":
            v, w = self.ev(a[0], env), self.labs(self.ev(a[1], env))
            if isinstance(v, S):
                return S(v.labels, [(lab(x) in w if x != T.NAN else False) for x in v.vals])
            if isinstance(v, Ix):
                return [lab(x) in w for x in v]
        if name == "concat2" and len(a) == 2:
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(x, S) and isinstance(y, S):
                if set(x.labels) & set(y.labels):
                    raise Undecided("duplicate labels")
                return S(x.labels + y.labels, x.vals + y.vals)
        if name == "fillna" and len(a) == 2:
            v, w = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(v, S):
                return S(v.labels, [(w.get(l) if l in w.labels else x) if isinstance(w, S) and x == T.NAN
                                    else w if x == T.NAN else x for l, x in zip(v.labels, v.vals)])
        if name == "Series":
            d = a[0] if a else kw.get("data")
            i = a[1] if len(a) > 1 else kw.get("index")
            dv = self.ev(d, env) if d is not None else T.NAN
            if i is None:
                if isinstance(dv, S):
                    return dv
                raise Undecided("series without labels")
            ls = [lab(x) for x in self.labs(self.ev(i, env))]
            if isinstance(dv, S):
                return S(ls, [dv.get(l) if l in dv.labels else T.NAN for l in ls])
            if isinstance(dv, tuple) and dv and dv[0] == "arr" or isinstance(dv, Ix):
                xs = dv[1] if not isinstance(dv, Ix) else dv
                if len(xs) != len(ls):
                    raise Fails("%d values for %d labels" % (len(xs), len(ls)))
                return S(ls, xs)
            return S(ls, [dv] * len(ls))
        if name == "combine_first" and len(a) == 2:
            v, w = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(v, S) and isinstance(w, S):
                ls = sorted(set(v.labels) | set(w.labels))
                return S(ls, [v.get(l) if l in v.labels and v.get(l) != T.NAN else w.get(l) if l in w.labels else T.NAN for l in ls])
        if name == "update" and len(a) == 2:
            v, w = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(v, S) and isinstance(w, S):
                return S(v.labels, [w.get(l) if l in w.labels and w.get(l) != T.NAN else x for l, x in zip(v.labels, v.vals)])
        raise Undecided(T.show(t))

    def labs(self, v):
        """labels in a container: the index of a series is not meant, its values are (iteration over a Series yields values)"""
        if isinstance(v, S):
            return Ix(lab(x) for x in v.vals)
        if isinstance(v, tuple) and v and v[0] == "arr":
            return Ix(lab(x) for x in v[1])
        if isinstance(v, (Ix, list)):
            return Ix(lab(x) for x in v)
        raise Undecided("not a container of labels")

    def cond(self, t, env):
        if t[0] == "not":
            v = self.cond(t[1], env)
            if isinstance(v, S):
                return S(v.labels, [not x for x in v.vals])
            if isinstance(v, list):
                return [not x for x in v]
            return not v
        if t[0] == "fn" and t[1].lstrip(".") in ("isna", "notna", "isin"):
            return self.fn(t, env)
        return self.truth(t, env)

    def truth(self, t, env=()):
        k = t[0]
        if T.is_bool_const(t):
            return bool(t[1])
        if k == "not":
            return not self.truth(t[1], env)
        if k in ("and", "or"):
            f = all if k == "and" else any
            return f(self.truth(x, env) for x in t[1])
        if k == "in":
            x, c = self.ev(t[1], env), self.ev(t[2], env)
            if isinstance(c, S):
                return lab(x) in c.labels
            return lab(x) in self.labs(c)
        if k in ("<0", "<=0", "==0"):
            v = self.ev(t[1], env)
            if isinstance(v, tuple) and not isinstance(v, Ix) and len(v) == 2 and T.is_num(v):
                return v[1] < 0 if k == "<0" else v[1] <= 0 if k == "<=0" else v[1] == 0
            raise Undecided(T.show(t))
        if k == "isnone":
            v = self.ev(t[1], env)
            return v == T.NONE
        if k == "fn" and t[1] in ("isna", "notna"):
            v = self.fn(t, env)
            if isinstance(v, bool):
                return v
        if k == "fn" and t[1] in ("any", "all") and len(t[2]) == 1:
            v = self.cond(t[2][0], env)
            v = v.vals if isinstance(v, S) else v
            if isinstance(v, (list, tuple)):
                return (any if t[1] == "any" else all)(v)
        if k == "fn" and t[1] == "empty":
            v = self.ev(t[2][0], env)
            return not (v.labels if isinstance(v, S) else v)
        raise Undecided(T.show(t))

    def holds(self, facts):
        """do the branch conditions of a path hold in this model, for every element of the loops they are about?"""
        und = False
        for f in facts:
            try:
                src = self.sources(f.term, ())
                if len(src) > 1:
                    raise Undecided("two loops")
                if src:
                    for j in range(self.size(src[0], ())):
                        if self.truth(f.term, ((src[0], j),)) != f.val:
                            return False
                elif self.truth(f.term) != f.val:
                    return False
            except Undecided:
                und = True
            except Fails:
                return False
        return None if und else True

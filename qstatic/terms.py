"""Value terms (Herbrand terms modulo a canonical form) used by the dataflow.

Terms are nested tuples.  Constructors canonicalise: arithmetic is a Laurent polynomial over atoms, comparisons
are oriented, boolean operators are in negation normal form around atoms, `all` is expressed by `any`, pandas
method / operator / numpy spellings of one operation are one term."""
from fractions import Fraction

NONE, TRUE, FALSE = ("const", None), ("const", True), ("const", False)
NAN, INF = ("const", "#nan"), ("const", "#inf")
STATE = {"numeric_sub": True}


def const(v):
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (float("inf"), float("-inf")):
            return INF if v > 0 else neg(INF)
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return ("const", v)
    if isinstance(v, (int, float)):
        try:
            return ("const", Fraction(v).limit_denominator(10 ** 15))
        except Exception:
            return ("const", repr(v))
    return ("const", repr(v))


def is_const(t):
    return t[0] == "const"


def is_num(t):
    return t[0] == "const" and isinstance(t[1], Fraction)


def is_bool_const(t):
    return t[0] == "const" and isinstance(t[1], bool)


def is_str(t):
    return (t[0] == "const" and isinstance(t[1], str) and not t[1].startswith("#nan") and t[1] != "#inf") \
        or t[0] in ("fstr", "cat")


SEQ = ("list", "tuple", "listcat", "comp", "append", "listof", "tupleof", "slice_")


def is_seq(t):
    return t[0] in SEQ or (t[0] == "fn" and t[1] in ("sorted", "list", "tuple", "keys"))


def is_set(t):
    return t[0] == "set" or (t[0] == "fn" and t[1] in ("set", "setdiff", "union", "intersection"))


# -- polynomials -------------------------------------------------------------
def _key(t):
    return repr(t)


def to_poly(t):
    """dict monomial(tuple of (atom, exp)) -> Fraction"""
    if is_num(t):
        return {(): t[1]} if t[1] else {}
    if t[0] == "poly":
        return dict(t[1])
    return {((t, 1),): Fraction(1)}


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ("const", Fraction(0))
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return ("const", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ("poly", tuple(sorted(d.items(), key=_key)))


def cat(parts):
    """concatenation of strings, constants merged"""
    out = []
    for p in parts:
        for x in (p[1:] if p[0] == "cat" else (p,)):
            if x[0] == "const" and x[1] == "":
                continue
            if out and x[0] == "const" and out[-1][0] == "const" and isinstance(x[1], str) and isinstance(out[-1][1], str):
                out[-1] = const(out[-1][1] + x[1])
            else:
                out.append(x)
    if not out:
        return const("")
    if len(out) == 1 and is_str(out[0]):
        return out[0]
    return ("cat",) + tuple(out)


def formatted(b, args, kw):
    """template.format(...) with plain fields, or None"""
    import string
    if b[0] != "const" or not isinstance(b[1], str):
        return None
    out, n = [], 0
    try:
        fields = list(string.Formatter().parse(b[1]))
    except ValueError:
        return None
    for lit, name, spec, conv in fields:
        if lit:
            out.append(const(lit))
        if name is None:
            continue
        if spec or conv:
            return None
        if name == "":
            name, n = str(n), n + 1
        if name.isdigit() and int(name) < len(args):
            out.append(args[int(name)])
        elif name in kw:
            out.append(kw[name])
        else:
            return None
    return cat(out)


def add(a, b):
    if a in (NAN,) or b in (NAN,):
        return NAN
    d = to_poly(a)
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=_key))


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 24:
        return ("fn", "mul", tuple(sorted((a, b), key=_key)), ())
    d = {}
    for m, c in pa.items():
        for n, e in pb.items():
            k = _mono_mul(m, n)
            d[k] = d.get(k, 0) + c * e
    return from_poly(d)


def power(a, n):
    """a ** n for an integer n"""
    if n == 0:
        return ("const", Fraction(1))
    if n > 0 and n <= 4:
        r = a
        for _ in range(n - 1):
            r = mul(r, a)
        return r
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple(sorted(((x, e * n) for x, e in m), key=_key)): c ** n})
    return from_poly({((a, n),): Fraction(1)})


def div(a, b):
    if is_num(b):
        return mul(a, ("const", 1 / b[1])) if b[1] else ("fn", "div0", (a,), ())
    return mul(a, power(b, -1))


def linear(t):
    """Term as (const, {atom: coef}) if it is linear in atoms, else None."""
    out, k = {}, Fraction(0)
    for m, c in to_poly(t).items():
        if m == ():
            k = c
        elif len(m) == 1 and m[0][1] == 1:
            out[m[0][0]] = c
        else:
            return None
    return k, out


# -- booleans ----------------------------------------------------------------
def not_(t):
    if is_bool_const(t):
        return ("const", not t[1])
    if t == NONE:
        return TRUE
    if is_num(t):
        return ("const", t[1] == 0)
    if t[0] == "not":
        return t[1]
    if t[0] == "and":
        return or_(*[not_(x) for x in t[1]])
    if t[0] == "or":
        return and_(*[not_(x) for x in t[1]])
    return ("not", t)


def _nary(tag, absorb, neutral, items):
    out = []
    for x in items:
        if x[0] == tag:
            out.extend(x[1])
        else:
            out.append(x)
    res = []
    for x in out:
        if x == absorb:
            return absorb
        if x != neutral and x not in res:
            res.append(x)
    for x in res:
        if not_(x) in res and x[0] != "not":
            return absorb
    if not res:
        return neutral
    if len(res) == 1:
        return res[0]
    return (tag, tuple(sorted(res, key=_key)))


def and_(*items):
    return _nary("and", FALSE, TRUE, items)


def or_(*items):
    return _nary("or", TRUE, FALSE, items)


def bool_atoms(t):
    """the conditions a condition is made of"""
    if t[0] in ("and", "or"):
        return set().union(*[bool_atoms(x) for x in t[1]])
    if t[0] == "not":
        return bool_atoms(t[1])
    return set() if is_bool_const(t) else {t}


def bool_value(t, env):
    if t[0] == "not":
        return not bool_value(t[1], env)
    if t[0] in ("and", "or"):
        return (all if t[0] == "and" else any)(bool_value(x, env) for x in t[1])
    return t[1] if is_bool_const(t) else env[t]


def any_(x):
    x = strip_values(x)
    if is_bool_const(x):
        return x
    if x[0] == "or":
        return or_(*[any_(y) for y in x[1]])
    if x[0] == "fn" and x[1] == "any":
        return x
    if x[0] == "not" and x[1][0] == "fn" and x[1][1] == "isin":
        return not_(subset(x[1][2][0], x[1][2][1]))
    if x[0] == "comp":
        elt, its, conds = x[2], x[3], x[4]
        if len(its) == 1 and not conds and elt[0] == "not" and elt[1][0] == "in" and elt[1][1] == ("elem", its[0]):
            return not_(subset(its[0], elt[1][2]))
        if elt[0] == "elem" and len(its) == 1 and elt[1] == its[0] and not conds:
            return any_(its[0])
        if T_bool(elt):
            return FALSE if not elt[1] else ("fn", "any", (("comp", "gen", elt, its, conds),), ())
        if len(its) == 1 and not conds:
            v = vectorise(elt)
            if v is not None:
                return any_(v)
        return ("fn", "any", (("comp", "gen", elt, its, conds),), ())
    if x[0] in ("list", "tuple"):
        return or_(*[truth(y) for y in x[1]])
    return ("fn", "any", (x,), ())


def T_bool(t):
    return is_bool_const(t)


def vectorise(t):
    """elementwise term over labels -> the same term over whole series, if every loop variable is an element of one"""
    ok = [True, False]

    def rec(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x[0] == "elem" and len(x) == 2:
            b = x[1]
            if any(y[0] in ("elem", "index", "key", "val") for y in subterms(b)):
                ok[0] = False
            ok[1] = True
            return b
        if x[0] in ("index", "key", "val", "elemrow", "comp") and len(x) > 1 and isinstance(x[1], tuple) or x[0] == "comp":
            ok[0] = False
            return x
        if x[0] in ("in", "subset", "call", "mcall", "item", "isinstance", "isnone") and \
                any(y[0] == "elem" for y in subterms(x)):
            ok[0] = False
            return x
        return tuple(rec(y) if isinstance(y, tuple) else y for y in x)
    r = rec(t)
    return r if ok[0] and ok[1] else None


def all_(x):
    x = strip_values(x)
    if x[0] == "comp":
        return not_(any_(("comp", x[1], not_(x[2]), x[3], x[4])))
    if x[0] in ("list", "tuple"):
        return and_(*[truth(y) for y in x[1]])
    return not_(any_(not_(x)))


def truth(t):
    """canonical truth value of a term used as a condition"""
    if is_const(t):
        if t[1] is None:
            return FALSE
        if isinstance(t[1], bool):
            return t
        if isinstance(t[1], Fraction):
            return ("const", t[1] != 0)
        if t in (NAN, INF):
            return TRUE
        return ("const", bool(t[1]))
    if t[0] == "not":
        return not_(truth(t[1]))
    if t[0] == "fn" and t[1] == "setdiff":
        return not_(subset(t[2][0], t[2][1]))
    if t[0] == "fn" and t[1] == "bool":
        return truth(t[2][0])
    if t[0] == "fn" and t[1] in ("len", "count_true"):
        return not_(cmp("==", t, const(0)))
    e = empty(t)
    if e is not None:
        return not_(e)
    if is_seq(t) or is_set(t):
        return not_(cmp("==", ("fn", "len", (t,), ()), const(0)))
    if t[0] == "ite":
        return or_(and_(t[1], truth(t[2])), and_(not_(t[1]), truth(t[3])))
    if t[0] == "boolop":
        return (and_ if t[1] == "and" else or_)(truth(t[2]), truth(t[3]))
    return t


def empty(x):
    """condition under which a collection built by the code has no element; None: no simpler form"""
    if x[0] in ("list", "tuple", "dict", "set"):
        return ("const", len(x[1]) == 0)
    if x[0] == "fn" and x[1] == "setdiff":
        return subset(x[2][0], x[2][1])
    if x[0] == "fn" and x[1] in ("set", "list", "tuple", "sorted", "unique") and len(x[2]) == 1:
        return empty(x[2][0])
    if x[0] == "comp" and x[4]:
        return not_(any_(("comp", "gen", and_(*x[4]), x[3], ())))
    if x[0] in ("either", "listcat"):
        e = [empty(y) for y in x[1:3]]
        e = [cmp("==", ("fn", "len", (y,), ()), const(0)) if z is None else z for y, z in zip(x[1:3], e)]
        return and_(*e)
    return None


def subset(a, b):
    def strip(x):
        while x[0] == "fn" and x[1] in ("set", "list", "tuple", "sorted", "unique") and x[2]:
            x = x[2][0]
        return x
    a, b = strip(a), strip(b)
    if a == b:
        return TRUE
    return ("subset", a, b)


def cmp(op, a, b):
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return cmp("<=", b, a)
    if op == "!=":
        return not_(cmp("==", a, b))
    if op == "==":
        if a == b and is_const(a):
            return ("const", a != NAN)
        if is_const(a) and is_const(b):
            return ("const", a == b)
        if a == b and not _maybe_exact(a):
            return not_(fn("isna", a))
        if _tuple_eq(a) and _tuple_eq(b) and len(a[1]) == len(b[1]):
            return and_(*[cmp("==", x, y) for x, y in zip(a[1], b[1])])
        for x, y in ((a, b), (b, a)):
            if y == NONE:
                return is_none(x)
            if is_bool_const(y):
                return truth(x) if y[1] else not_(truth(x))
        if is_set(a) or is_set(b):
            return ("seteq",) + tuple(sorted((_strip_set(a), _strip_set(b)), key=_key))
        if is_str(a) or is_str(b) or a[0] in ("glob", "enum") or b[0] in ("glob", "enum"):
            return ("==",) + tuple(sorted((a, b), key=_key))
        for x, y in ((a, b), (b, a)):
            if y == const(0) and x[0] == "fn" and x[1] == "len" and empty(x[2][0]) is not None:
                return empty(x[2][0])
        p = to_poly(sub(a, b))
        if p and sorted(p.items(), key=_key)[0][1] < 0:
            p = {m: -c for m, c in p.items()}
        p = from_poly(p)
        if is_num(p):
            return ("const", p[1] == 0)
        return ("==0", p)
    if is_set(a) and is_set(b) and op == "<=":
        return subset(a, b)
    p = sub(a, b)
    if is_num(p):
        return ("const", p[1] < 0 if op == "<" else p[1] <= 0)
    pp = to_poly(p)
    # lengths are never negative: len(x) > 0, len(x) >= 1, len(x) < 1
    rest = {m: c for m, c in pp.items() if m != ()}
    if len(rest) == 1:
        (m, c), = rest.items()
        k = pp.get((), Fraction(0))
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "fn" and m[0][0][1] in ("len", "count_true"):
            zero = cmp("==", m[0][0], const(0))
            t = k / c
            if c == -1 and ((op == "<" and t == 0) or (op == "<=" and t == -1)):
                return not_(zero)
            if c == 1 and ((op == "<" and t == -1) or (op == "<=" and t == 0)):
                return zero
    return ("<0" if op == "<" else "<=0", p)


def _maybe_exact(t):
    return t[0] in ("list", "tuple", "dict") or is_set(t) or is_str(t)


def _tuple_eq(t):
    return t[0] == "tuple"


def _strip_set(x):
    while x[0] == "fn" and x[1] in ("set", "list", "tuple", "sorted", "unique") and x[2]:
        x = x[2][0]
    return x


def is_none(x):
    if is_const(x):
        return ("const", x[1] is None)
    if x[0] in ("list", "tuple", "dict", "set", "new", "poly", "comp", "listcat", "append", "setitem", "func", "enum",
                "lambda", "fstr", "cat", "dictof", "merge", "<0", "<=0", "==0", "not", "and", "or", "subset"):
        return FALSE
    if x[0] == "fn" and x[1] in ("len", "set", "sorted", "list", "tuple", "abs", "isna", "any", "sum", "Series",
                                 "DataFrame", "norm", "fillna", "zeros", "concat", "concat2", "deepcopy"):
        return FALSE
    if x[0] == "call" and x[1] in ("logging.getLogger",):
        return FALSE
    return ("isnone", x)


# -- functions ---------------------------------------------------------------
def strip_values(x):
    while x[0] == "fn" and x[1] in ("values", "ravel", "asarray", "squeeze_") and len(x[2]) == 1 and not x[3]:
        x = x[2][0]
    return x


def fn(name, *args, **kw):
    args = tuple(args)
    if name == "any":
        return any_(args[0])
    if name == "all":
        return all_(args[0])
    if name == "isna":
        x = strip_values(args[0])
        if is_num(x) or is_bool_const(x):
            return FALSE
        if x == NAN:
            return TRUE
        return ("fn", "isna", (x,), ())
    if name == "abs":
        p = to_poly(args[0])
        if p and sorted(p.items(), key=_key)[0][1] < 0:
            p = {m: -c for m, c in p.items()}
        p = from_poly(p)
        if is_num(p):
            return p
        return ("fn", "abs", (p,), ())
    if name == "len":
        x = args[0]
        if x[0] in ("list", "tuple", "dict") :
            return const(len(x[1]))
        if x[0] == "attr" and x[2] == "index":
            x = x[1]
        if x[0] == "fn" and x[1] in ("values", "list", "tuple", "sorted", "reversed", "copy", "deepcopy") and len(x[2]) >= 1:
            return fn("len", x[2][0])
        if x[0] == "append":
            return add(fn("len", x[1]), const(1))
        if x[0] == "popped":
            return add(fn("len", x[1]), const(-1))
        if x[0] == "listcat":
            return add(fn("len", x[1]), fn("len", x[2]))
        if x[0] == "comp" and not x[4] and len(x[3]) == 1 and x[1] != "set":
            return fn("len", x[3][0])
        if x[0] == "comp" and not x[4] and x[3] and x[1] != "set" and all(fn("len", y) == fn("len", x[3][0]) for y in x[3]):
            return fn("len", x[3][0])
        return ("fn", "len", (x,), ())
    return ("fn", name, args, tuple(sorted(kw.items())))


def item(base, idx):
    """base[idx]"""
    if idx[0] == "attr" and idx[2] == "index" and idx == index_of(base) and not is_frame(base):
        return base
    if base[0] == "setitem" and base[2] == idx:
        return base[3]
    if base[0] in ("list", "tuple") and is_num(idx) and idx[1].denominator == 1:
        i = int(idx[1])
        if -len(base[1]) <= i < len(base[1]):
            return base[1][i]
    if base[0] == "dict" and is_const(idx):
        for k, v in base[1]:
            if k == idx:
                return v
    if idx[0] == "index" and idx[1][0] == "comp" and idx[1][4]:
        if base[0] == "comp" and base[2:] == idx[1][2:]:
            return base[2]
        return ("item", base, idx)
    if idx[0] == "index":
        if base[0] == "comp" and base[1] == "list" and len(base[3]) == 1 and not base[4] and base[2][0] != "ref":
            return base[2]
        return ("elem", base)
    if idx[0] == "elem" and idx[1] == ("attr", base, "index"):
        return ("elem", base)
    if idx[0] == "key" and idx[1] == base:
        return ("val", base)
    if idx[0] == "elem" and base[0] == "item" and idx[1] == ("attr", base[1], "index"):
        return ("elem", base)
    if base[0] == "elemrow":
        return ("elem", item(base[1], idx))
    if base[0] == "item" and is_num(idx) and idx[1].denominator == 1 and idx[1] >= 0 and base[2][0] in ("slice", "fn") and \
            (base[2][0] == "slice" or base[2][1] == "slice"):
        b = base[2][1:] if base[2][0] == "slice" else base[2][2]
        if len(b) == 3 and b[0] in (NONE, const(0)) and b[2] in (NONE, const(1)) and is_num(b[1]) and b[1][1] > idx[1]:
            return item(base[1], idx)
    if base[0] == "setitem" and base[2] == idx and is_const(idx):
        return base[3]
    if base[0] == "append" and is_num(idx) and idx[1] == -1:
        return base[2]
    if base[0] == "comp" and base[1] == "list" and len(base[3]) == 1 and not base[4] and is_num(idx) and base[2][0] != "ref":
        src = base[3][0]
        if not any(x[0] in ("index", "key", "val", "elemrow") and x[1] == src for x in subterms(base[2])):
            return subst(base[2], {("elem", src): item(src, idx)})
    return ("item", base, idx)


def subst(t, m):
    """replace subterms and bring the result into canonical form again"""
    if t in m:
        return m[t]
    if not isinstance(t, tuple) or not t or not any(contains(t, x) for x in m):
        return t
    k = t[0]
    rec = lambda x: subst(x, m)
    if k == "poly":
        out = const(0)
        for mono, c in t[1]:
            y = ("const", c)
            for a, e in mono:
                y = mul(y, power(rec(a), e))
            out = add(out, y)
        return out
    if k == "item" and len(t) == 3:
        return item(rec(t[1]), rec(t[2]))
    if k in ("<0", "<=0"):
        return cmp(k[:-1], rec(t[1]), const(0))
    if k == "==0":
        return cmp("==", rec(t[1]), const(0))
    if k == "not":
        return not_(rec(t[1]))
    if k == "and":
        return and_(*[rec(x) for x in t[1]])
    if k == "or":
        return or_(*[rec(x) for x in t[1]])
    if k == "isnone":
        return is_none(rec(t[1]))
    if k == "fn":
        args = tuple(rec(x) for x in t[2])
        kw = tuple((n, rec(v)) for n, v in t[3])
        if t[1] in ("isna", "abs", "len", "any") and not kw:
            return fn(t[1], *args)
        return ("fn", t[1], args, kw)
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)


def is_frame(t):
    """the term is certainly a table with rows and columns"""
    if t[0] == "fn" and t[1] == "T" and len(t[2]) == 1:
        return is_frame(t[2][0])
    if t[0] == "fn" and t[1] == "concat":
        return dict(t[3]).get("axis") in (const(1), const("columns"))
    if t[0] == "fn" and t[1] == "DataFrame":
        return True
    if t[0] == "item":
        return is_frame(t[1]) and (t[2][0] == "attr" and t[2][2] in ("index", "columns") or t[2][0] in ("fn", "list"))
    return False


def columns_of(t):
    if is_frame(t):
        if t[0] == "fn" and t[1] == "T":
            return index_of(t[2][0])
        if t[0] == "fn" and t[1] == "concat" and "keys" in dict(t[3]):
            return dict(t[3])["keys"]
        if t[0] == "item" and t[2][0] in ("attr", "list"):
            return t[2]
    return ("attr", t, "columns")


def index_of(t):
    """labels of a series term: elementwise operations keep the common labels of their operands"""
    if is_frame(t):
        if t[0] == "fn" and t[1] == "T":
            return columns_of(t[2][0])
        if t[0] == "item":
            return index_of(t[1])
        return ("attr", t, "index")
    if t[0] == "poly":
        ix = set()
        for m, _ in t[1]:
            for a, _ in m:
                if a[0] == "fn" and a[1] in ("norm", "len", "sum", "mean", "min", "max"):
                    continue
                ix.add(index_of(a))
        if len(ix) == 1:
            return ix.pop()
    if t[0] == "fn" and t[1] in ("abs", "fillna", "copy", "deepcopy") and t[2]:
        return index_of(t[2][0])
    if t[0] == "item" and t[2][0] == "attr" and t[2][2] == "index":
        return t[2]
    if t[0] == "item" and t[2][0] == "fn" and t[2][1] in ("intersection",):
        return t[2]
    return ("attr", t, "index")


def walk(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from walk(x)


def subterms(t):
    """proper terms inside t (tuples whose first entry is a tag)"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        if x and isinstance(x[0], str):
            yield x
        stack.extend(y for y in x if isinstance(y, tuple))


def contains(t, sub_):
    return any(x == sub_ for x in subterms(t))


def replace(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        r = tuple(replace(x, old, new) if isinstance(x, tuple) else x for x in t)
        return r if r != t else t
    return t


def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if depth > 9:
        return "..."
    s = lambda x: show(x, depth + 1)
    if k == "const":
        v = t[1]
        if isinstance(v, Fraction):
            return str(v) if v.denominator == 1 else str(float(v))
        return {"#nan": "nan", "#inf": "inf"}.get(v, repr(v)) if isinstance(v, str) else repr(v)
    if k in ("param", "glob"):
        return t[1]
    if k == "self":
        return "self"
    if k == "attr":
        return s(t[1]) + "." + t[2]
    if k == "item":
        return "%s[%s]" % (s(t[1]), s(t[2]))
    if k == "poly":
        out = []
        for m, c in t[1]:
            f = "*".join(s(a) + ("^%d" % e if e != 1 else "") for a, e in m)
            cc = str(c) if c.denominator == 1 else str(float(c))
            out.append(f if c == 1 and f else (cc + ("*" + f if f else "")))
        return "(" + " + ".join(out) + ")"
    if k in ("<0", "<=0", "==0"):
        return "%s %s 0" % (s(t[1]), k[:-1])
    if k == "not":
        return "not(%s)" % s(t[1])
    if k in ("and", "or"):
        return "(" + (" %s " % k).join(s(x) for x in t[1]) + ")"
    if k == "fn":
        a = [s(x) for x in t[2]] + ["%s=%s" % (n, s(v)) for n, v in t[3]]
        return "%s(%s)" % (t[1], ", ".join(a))
    if k == "call":
        a = [s(x) for x in t[2]] + ["%s=%s" % (n, s(v)) for n, v in t[3]]
        return "%s(%s)" % (t[1], ", ".join(a))
    if k == "mcall":
        a = [s(x) for x in t[3]] + ["%s=%s" % (n, s(v)) for n, v in t[4]]
        return "%s.%s(%s)" % (s(t[1]), t[2], ", ".join(a))
    if k == "isnone":
        return s(t[1]) + " is None"
    if k in ("elem", "index", "key", "val"):
        return "%s_of(%s)" % (k, s(t[1]))
    if k in ("list", "tuple", "set"):
        return k + "(" + ", ".join(s(x) for x in t[1]) + ")"
    if k == "dict":
        return "{" + ", ".join(s(a) + ": " + s(b) for a, b in t[1]) + "}"
    if k == "comp":
        return "[%s for %s%s]" % (s(t[2]), ", ".join(s(x) for x in t[3]),
                                  (" if " + " and ".join(s(x) for x in t[4])) if t[4] else "")
    return k + "(" + ", ".join(s(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                               (str(x) if not isinstance(x, tuple) else "(" + ", ".join(
                                   s(y) if isinstance(y, tuple) else str(y) for y in x) + ")")
                               for x in t[1:]) + ")"


def root(t):
    """the variable a term is a part, or a changed version, of"""
    while t is not None and t[0] in ("attr", "item", "elem", "val", "setitem", "append", "elemrow", "setdefault", "mut", "merge", "popped") or \
            (t is not None and t[0] == "fn" and t[1] in ("getdefault",) and t[2]):
        t = t[2][0] if t[0] == "fn" else t[1]
    return t


def root_of(t, var):
    return t is not None and root(t) == var

"""Interprocedural dataflow with value numbering and trace partitioning.

`Interp.run(cls, method)` walks one method of a class: methods of the class and helpers of the package are inlined
(unless declared opaque), each branch of the control flow is one partition, loops are covered by one generic
iteration.  The result is a list of Path summaries: facts (branch conditions as canonical terms), events (calls,
stores and in-place changes in order), outcome and final state.  Nothing is executed and no solver is involved."""
import ast
from . import terms as T
from .terms import const, fn, item, NONE, TRUE, FALSE
from .loader import Func, Class, AnalysisBroken

MAXPATHS = 6000


class TooManyPaths(Exception):
    pass


class Event:
    __slots__ = ("kind", "name", "recv", "args", "kw", "loc", "loops", "nfacts", "res", "recv_ref", "arg_refs",
                 "kw_refs", "extra", "seq", "stack", "trys")

    def __init__(self, kind, name, recv=None, args=(), kw=(), loc=None, loops=(), nfacts=0, res=None, recv_ref=None,
                 arg_refs=(), kw_refs=None, extra=None, stack=()):
        self.kind, self.name, self.recv, self.args, self.kw = kind, name, recv, tuple(args), dict(kw)
        self.loc, self.loops, self.nfacts, self.res = loc, loops, nfacts, res
        self.recv_ref, self.arg_refs, self.kw_refs, self.extra, self.stack = recv_ref, tuple(arg_refs), kw_refs or {}, extra, stack
        self.trys = ()

    def arg(self, i, name=None):
        if name is not None and name in self.kw:
            return self.kw[name]
        if i is not None and i < len(self.args):
            return self.args[i]
        return None

    def arg_ref(self, i, name=None):
        if name is not None and name in self.kw_refs:
            return self.kw_refs[name]
        if i is not None and i < len(self.arg_refs):
            return self.arg_refs[i]
        return None

    def __repr__(self):
        return "<%s %s.%s(%s%s) @%s>" % (self.kind, T.show(self.recv) if self.recv else "", self.name,
                                        ", ".join(T.show(a) for a in self.args),
                                        "".join(", %s=%s" % (k, T.show(v)) for k, v in self.kw.items()), self.loc)


class Fact:
    __slots__ = ("term", "val", "loc", "loops")

    def __init__(self, term, val, loc, loops):
        self.term, self.val, self.loc, self.loops = term, val, loc, loops

    def __repr__(self):
        return "%s%s" % ("" if self.val else "NOT ", T.show(self.term))


class State:
    __slots__ = ("env", "store", "heap", "facts", "events", "loops", "frame")

    def __init__(self):
        self.env, self.store, self.heap, self.facts, self.events, self.loops, self.frame = {}, {}, {}, [], [], (), None

    def copy(self):
        s = State()
        s.env, s.store, s.heap = dict(self.env), dict(self.store), dict(self.heap)
        s.facts, s.events, s.loops, s.frame = list(self.facts), list(self.events), self.loops, self.frame
        return s


class Frame:
    def __init__(self, func, cls, self_ref, objcls, parent=None):
        self.func, self.cls, self.self_ref, self.objcls, self.parent = func, cls, self_ref, objcls, parent
        self.module = func.module
        self.imports = {}


class Path:
    def __init__(self, interp, st, kind, val, loc):
        self.i, self.st, self.kind, self.val, self.loc = interp, st, kind, val, loc
        self.facts, self.events = st.facts, st.events

    @property
    def ret(self):
        return self.i.snap(self.st, self.val) if self.kind == "ret" and self.val is not None else \
            (NONE if self.kind == "ret" else None)

    def calls(self, name=None, recv=None):
        return [e for e in self.events if e.kind == "call" and (name is None or e.name == name)
                and (recv is None or e.recv == recv)]

    def truth(self, t):
        return self.i.decide(self.st, T.truth(t))

    def final(self, name):
        """value of self.<name> in the final state (property getters are evaluated)"""
        return self.i.read_self(self.st, name)

    def index(self, ev):
        return self.events.index(ev)

    def facts_before(self, ev):
        return self.facts[:ev.nfacts]

    def describe(self):
        return " & ".join(("" if f.val else "not ") + T.show(f.term) for f in self.facts) or "unconditional"


EXT = {
    "numpy.isnan": "isna", "pandas.isna": "isna", "pandas.isnull": "isna", "math.isnan": "isna",
    "numpy.abs": "abs", "numpy.absolute": "abs", "numpy.fabs": "abs", "math.fabs": "abs",
    "numpy.any": "any", "numpy.all": "all", "numpy.linalg.norm": "norm", "numpy.asarray": "asarray",
    "numpy.array": "array", "numpy.squeeze": "squeeze", "numpy.sqrt": "sqrt", "math.sqrt": "sqrt",
    "numpy.mean": "mean", "numpy.sum": "sum", "numpy.nanmean": "nanmean", "pandas.concat": "concat",
    "pandas.Series": "Series", "pandas.DataFrame": "DataFrame", "numpy.argmax": "argmax", "numpy.argmin": "argmin",
    "numpy.min": "min", "numpy.max": "max", "numpy.amin": "min", "numpy.amax": "max", "numpy.dot": "matmul",
    "numpy.matmul": "matmul", "numpy.isin": "isin", "numpy.logical_not": "not", "numpy.logical_and": "and",
    "numpy.logical_or": "or", "numpy.minimum": "min", "numpy.maximum": "max", "numpy.zeros": "zeros",
    "numpy.less": "<", "numpy.less_equal": "<=", "numpy.greater": ">", "numpy.greater_equal": ">=",
    "numpy.equal": "==", "numpy.not_equal": "!=", "numpy.subtract": "-", "numpy.add": "+", "numpy.multiply": "*",
    "numpy.divide": "/", "numpy.true_divide": "/", "numpy.ravel": "ravel", "numpy.size": "len", "numpy.var": "var",
    "numpy.nanvar": "nanvar", "numpy.copy": "copy", "copy.copy": "copy", "operator.lt": "<", "operator.le": "<=",
    "operator.sub": "-", "numpy.square": "square",
}
PURE_PREFIX = ("numpy.", "pandas.", "scipy.", "math.", "sympy.", "os.path.", "operator.", "re.", "itertools.",
               "functools.", "copy.", "fractions.", "collections.", "enum.", "typing.", "string.", "h5py.special_dtype",
               "h5py.check_string_dtype", "logging.getLogger", "datetime.timedelta", "filterpy.")
IMPURE_EXT = ("scipy.optimize.curve_fit", "numpy.random.", "numpy.put", "numpy.copyto", "numpy.fill_diagonal",
              "scipy.optimize.")
MUT_EXT = {"numpy.put": 0, "numpy.copyto": 0, "numpy.fill_diagonal": 0, "random.shuffle": 0, "numpy.random.shuffle": 0}
SIG = {"Series": ("data", "index", "dtype"), "DataFrame": ("data", "index", "columns", "dtype"),
       "concat": ("objs", "axis"), "fillna": ("value",), "sorted": ("key",)}

BUILTIN_PURE = {"len", "set", "sorted", "list", "tuple", "dict", "zip", "enumerate", "range", "min", "max", "abs", "int",
                "float", "str", "bool", "isinstance", "hasattr", "getattr", "sum", "any", "all", "repr", "type", "id",
                "round", "map", "filter", "reversed", "iter", "next", "format", "frozenset", "complex", "callable",
                "issubclass", "divmod", "slice", "object", "bytes", "vars", "super", "chr", "ord", "pow", "hash"}
DATA_ATTRS = {"index", "values", "columns", "T", "size", "shape", "empty", "hasnans", "dtype", "ndim", "name_",
              "dtypes", "iloc", "loc", "at", "iat", "str", "flat", "real", "imag", "array"}
TARGET_COLS = {"desired", "minimum", "maximum", "tolerance", "cost_threshold", "rescaling_factor"}
# methods of pandas / numpy / str / dict / list values that change nothing
PURE_METHODS = {
    "isna", "isnull", "notna", "notnull", "any", "all", "abs", "fillna", "dropna", "drop", "copy", "sub", "subtract",
    "add", "radd", "rsub", "mul", "multiply", "div", "divide", "truediv", "lt", "le", "gt", "ge", "eq", "ne", "sum",
    "mean", "min", "max", "std", "var", "idxmin", "idxmax", "argmax", "argmin", "intersection", "union", "difference",
    "isin", "issubset", "issuperset", "isdisjoint", "symmetric_difference", "reindex", "reindex_like", "sort_index",
    "sort_values", "rename", "filter", "apply", "applymap", "agg", "groupby", "astype", "tolist", "to_list",
    "to_numpy", "to_dict", "to_frame", "transpose", "squeeze", "ravel", "reshape", "flatten", "dot", "get", "items",
    "keys", "values", "iteritems", "iterrows", "itertuples", "head", "tail", "equals", "format", "join", "split",
    "strip", "lstrip", "rstrip", "startswith", "endswith", "upper", "lower", "replace", "count", "index", "find",
    "search", "match", "findall", "group", "set_axis", "clip", "round", "nullspace", "norm", "combine_first", "where",
    "mask", "item", "nonzero", "transform", "cumsum", "prod", "squared", "difference_", "take", "xs", "query",
    "asstr", "unique", "duplicated", "get_loc", "nunique", "pipe", "map", "assign", "align", "encode", "decode",
    "explode", "cov", "corr", "diff", "shift", "eval_", "strftime", "inverse", "inv", "identity", "is_unique",
    "between", "first_valid_index", "nlargest", "nsmallest", "pow", "__len__", "__contains__", "__getitem__",
    "total_seconds", "isdigit", "title", "casefold", "zfill", "partition", "rpartition", "rsplit", "splitlines",
    "most_common", "elements", "conj", "trace", "swapaxes", "repeat", "searchsorted", "compress", "diagonal",
}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "setdefault", "popitem",
            "appendleft", "popleft", "discard", "resize", "fill", "itemset", "partition_", "difference_update",
            "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__"}
LOG = {"info", "debug", "warning", "error", "exception", "critical", "log", "warn"}
VIEW_METHODS = {"squeeze", "ravel", "reshape", "transpose", "get", "to_numpy", "swapaxes", "setdefault"}
BOOL_TAGS = {"<0", "<=0", "==0", "==", "not", "and", "or", "isnone", "in", "subset", "seteq", "is", "isinstance"}
MIXED_FN = {"any", "isna", "isin", "hasattr", "equals", "startswith", "bool"}


def is_boolish(t):
    return t[0] in BOOL_TAGS or (t[0] == "phi" and is_boolish(t[2])) or T.is_bool_const(t) or (t[0] == "fn" and t[1] in MIXED_FN)


def _monotone(v, ph, conj):
    """r such that v is (ph and r), or (ph or r) if not conj; None if v has another form"""
    if v == ph:
        return TRUE if conj else FALSE
    if v == (FALSE if conj else TRUE):
        return v
    if v[0] == ("and" if conj else "or") and ph in v[1]:
        rest = [x for x in v[1] if x != ph]
        if not any(T.contains(x, ph) for x in rest):
            return T.and_(*rest) if conj else T.or_(*rest)
    return None


def same_order(k, v):
    """labels and values reordered together are the labels and values"""
    if v[0] == "fn" and v[1].lstrip(".") == "sort_index" and len(v[2]) == 1 and not v[3] and k == T.index_of(v):
        return T.index_of(v[2][0]), v[2][0]
    if k[0] == "fn" and k[1] in ("sorted", "list", "tuple", "set") and len(k[2]) == 1 and not k[3]:
        if v[0] == "item" and v[2] == k and k[2][0] == T.index_of(v[1]):
            return k[2][0], v[1]
    return k, v


class Interp:
    def __init__(self, prog, opaque=(), exc=False, inline_foreign=(), types=None, maxdepth=14, split_bool=True,
                 exc_filter=None, param_types=None, pure_calls=(), unroll=True, opaque_props=(), skip_paths=False, deep_distinct=False, labels=False,
                 nones=False, fixed=None, fixed_attrs=None, maxsteps=None):
        self.prog, self.opaque, self.exc = prog, set(opaque), exc
        self.nones = nones            # record uses of a value that is None as if it was an object
        self.maxsteps, self.steps = maxsteps, 0
        self.fixed_attrs = fixed_attrs or {}    # terms of attributes of self
        self.fixed = fixed or {}      # terms of parameters
        self.deep_distinct = deep_distinct
        self.labels = labels          # keep the order of labels in set operations, tell .loc assignments from positional ones
        self.maxdepth, self.split_bool = maxdepth, split_bool
        self.inline_foreign = set(inline_foreign)
        self.types = types or {}
        self.param_types = param_types or {}
        self.exc_filter = exc_filter
        self.pure_calls = set(pure_calls)
        self.opaque_props = set(opaque_props)
        self.skip_paths = skip_paths
        self.unroll = unroll
        self.alias = {}
        self.objcls = {}
        self.nref = 0
        self.raised = []
        self.try_depth = 0
        self.stack = []
        self.funcs = {}
        self.visited = set()
        self.yield_cb = []
        self.comp_mode = 0
        self.stats = {"calls": 0, "inlined": 0, "paths": 0, "functions": set()}
        self.owned_fresh = set()

    # ------------------------------------------------------------------ refs
    def new(self, st, term, alias=(), cls=None):
        self.nref += 1
        r = self.nref
        st.store[r] = term
        if alias:
            self.alias[r] = tuple(alias)
        if cls is not None:
            self.objcls[r] = cls
        return r

    def snap(self, st, r, depth=0):
        t = st.store.get(r)
        if t is None:
            return ("unk", "unset")
        return self.resolve_refs(st, t, depth)

    def resolve_refs(self, st, t, depth=0):
        if depth > 40:
            return ("deep",)
        if t[0] == "ref":
            return self.snap(st, t[1], depth + 1)
        if t[0] in ("const", "param", "glob", "self", "enum"):
            return t
        if not _has_ref(t):
            return t
        out = []
        for x in t:
            if isinstance(x, tuple):
                out.append(self._rr(st, x, depth))
            else:
                out.append(x)
        return tuple(out)

    def _rr(self, st, x, depth):
        if x and x[0] == "ref" and len(x) == 2 and isinstance(x[1], int):
            return self.snap(st, x[1], depth + 1)
        if not _has_ref(x):
            return x
        return tuple(self._rr(st, y, depth + 1) if isinstance(y, tuple) else y for y in x)

    def roots(self, r):
        """all refs an in-place change of r is visible through (r itself and what it is a view of)"""
        out, stack = [], [r]
        while stack:
            x = stack.pop()
            if x in out:
                continue
            out.append(x)
            stack.extend(self.alias.get(x, ()))
        return out

    # ------------------------------------------------------------------ facts
    def loc(self, node):
        f = self.stack[-1].func if self.stack else None
        return (f.module.rel if f else "?", getattr(node, "lineno", 0), f.qual if f else "?")

    REL = {("<0", True): {"L"}, ("<0", False): {"E", "G", "N"}, ("<=0", True): {"L", "E"}, ("<=0", False): {"G", "N"},
           ("==0", True): {"E"}, ("==0", False): {"L", "G", "N"}}

    def _rel(self, t, val):
        p = t[1]
        neg = T.neg(p)
        s = self.REL[(t[0], val)]
        if repr(neg) < repr(p):
            p = neg
            s = {{"L": "G", "G": "L"}.get(x, x) for x in s}
        return p, s

    def decide(self, st, t):
        d = self.decide1(st, t)
        if d is None and t[0] != "not":
            d = self.propositional(st, t)
        return d

    def propositional(self, st, t):
        """what the alternatives known to hold (an or, a negated and) leave of t: truth table over the conditions in them"""
        alts = [(f.term, f.val) for f in st.facts if f.term[0] in ("and", "or")]
        if not alts:
            return None
        want = T.bool_atoms(t)
        sets = [(a, T.bool_atoms(a[0])) for a in alts]
        used, grew = [], True
        while grew:
            grew = False
            for a, at in sets:
                if a not in used and at & want:
                    used.append(a)
                    want |= at
                    grew = True
        if not used or len(want) > 8:
            return None
        fixed = {x: self.decide1(st, x) for x in want}
        free = [x for x in want if fixed[x] is None]
        seen = set()
        for k in range(1 << len(free)):
            env = {x: v for x, v in fixed.items() if v is not None}
            env.update((x, bool(k >> j & 1)) for j, x in enumerate(free))
            if all(T.bool_value(a, env) == v for a, v in used):
                seen.add(T.bool_value(t, env))
                if len(seen) == 2:
                    return None
        return seen.pop() if seen else None

    def decide1(self, st, t):
        if T.is_bool_const(t):
            return t[1]
        if t[0] == "not":
            d = self.decide1(st, t[1])
            return None if d is None else not d
        for f in reversed(st.facts):
            if f.term == t:
                return f.val
        if t[0] == "and":
            ds = [self.decide1(st, x) for x in t[1]]
            if any(d is False for d in ds):
                return False
            return True if all(d is True for d in ds) else None
        if t[0] == "or":
            ds = [self.decide1(st, x) for x in t[1]]
            if any(d is True for d in ds):
                return True
            return False if all(d is False for d in ds) else None
        if t[0] in ("<0", "<=0", "==0"):
            p, s = self._rel(t, True)
            have = {"L", "E", "G", "N"}
            if exact_valued(p):
                have = {"L", "E", "G"}
            for f in st.facts:
                if f.term[0] in ("<0", "<=0", "==0"):
                    q, u = self._rel(f.term, f.val)
                    if q == p:
                        have &= u
            if have <= s:
                return True
            if not (have & s):
                return False
            return None
        if t[0] == "isnone":
            for f in st.facts:
                if f.term == t[1] and f.val:
                    return False
                if f.term[0] == "isinstance" and f.term[1] == t[1] and f.val:
                    return False
                if f.val is True and f.term[0] == "in" and f.term[1] == t[1]:
                    pass
        else:
            for f in st.facts:
                if f.term == ("isnone", t) and f.val:
                    return False
        return None

    def assume(self, st, t, val, node):
        if t[0] == "not":
            return self.assume(st, t[1], not val, node)
        if t[0] == "and" and val or t[0] == "or" and not val:
            for x in t[1]:
                self.assume(st, x, val, node)
            return
        st.facts.append(Fact(t, val, node if isinstance(node, tuple) else self.loc(node), st.loops))

    # ------------------------------------------------------------------ running
    def start(self, func, cls=None, params=None, self_term=("self",)):
        st = State()
        self_ref = None
        self.nref += 1
        if cls is not None and func.kind != "staticmethod":
            self_ref = self.new(st, self_term, cls=cls)
            for a, t in self.fixed_attrs.items():
                st.heap[(self_ref, a)] = self.new(st, t)
        frame = Frame(func, func.cls, self_ref, cls)
        pos, kwonly, defaults, va, kwa = func.params()
        names = pos + kwonly
        ann = func.annotations()
        self.param_refs = {}
        for i, n in enumerate(names):
            if i == 0 and self_ref is not None and n in pos:
                if func.kind == "classmethod":
                    st.env[n] = self.new(st, ("cls", cls.name))
                else:
                    st.env[n] = self_ref
                continue
            st.env[n] = self.param_refs[n] = self.new(st, self.fixed.get(n, ("param", n)))
            k = self.param_types.get(n)
            if k:
                self.objcls[st.env[n]] = self.prog.cls(k)
        if va:
            st.env[va] = self.new(st, ("param", "*" + va))
        if kwa:
            st.env[kwa] = self.new(st, self.fixed.get(kwa, ("param", "**" + kwa)))
        st.frame = frame
        self.self_ref = self_ref
        return st, frame

    def run(self, func, cls=None):
        self.raised = []
        st, frame = self.start(func, cls)
        self.st0 = st.copy()
        self.stack = [frame]
        self.stats["functions"].add((func.module.rel, func.qual))
        outs = self.block(func.node.body if isinstance(func.node.body, list) else [ast.Return(value=func.node.body)], st)
        paths = []
        for kind, s, val in outs:
            node = func.node
            if kind in ("n", "brk", "cont"):
                kind, val = "ret", None
            paths.append((kind, s, val))
        res = []
        for kind, s, val in paths:
            loc = self.loc(func.node)
            if kind == "ret" and self.split_bool and val is not None:
                t = T.truth(self.snap(s, val))
                raw = self.snap(s, val)
                if is_boolish(raw) and not T.is_bool_const(raw):
                    d = self.decide(s, t)
                    if d is None:
                        for b in (True, False):
                            c = s.copy()
                            self.assume(c, t, b, func.node)
                            res.append(Path(self, c, "ret", self.new(c, const(b)), loc))
                        continue
                    val = self.new(s, const(d))
            res.append(Path(self, s, kind, val, loc))
        self.stats["paths"] += len(res)
        # keep the frame so that paths can evaluate properties in their final states
        self.stack = [frame]
        return res

    def run_method(self, cls, name, kind="method"):
        f = self.prog.getter(cls, name) if kind == "get" else self.prog.setter(cls, name) if kind == "set" else \
            self.prog.method(cls, name)
        if f is None:
            raise AnalysisBroken("%s.%s not found" % (cls.name, name))
        return self.run(f, cls)

    def read_self(self, st, name):
        """term of self.<name>, evaluated in state st without disturbing it"""
        c = st.copy()
        save = self.stack, self.raised, self.exc
        self.stack, self.raised, self.exc = [self.stack[0]], [], False
        try:
            outs = self.getattr_(c, self.self_ref, name, self.stack[0].func.node)
            terms = [self.snap(s, r) for s, r in outs]
        finally:
            self.stack, self.raised, self.exc = save
        return terms[0] if terms and all(t == terms[0] for t in terms) else (("unk", "multi") if terms else ("unk", name))

    def initial(self, name):
        """term of self.<name> before the function runs"""
        return self.read_self(self.st0, name)

    def export(self, st=None):
        """{key: term} of to_hdf5() in a state (the initial one by default); None if it is not a plain dict"""
        outs = self.call_self(st or self.st0, "to_hdf5")
        if outs and all(o == outs[0] for o in outs) and outs[0][0] == "dict" and \
                all(T.is_const(k) for k, _ in outs[0][1]):
            return {k[1]: v for k, v in outs[0][1]}
        return None

    def call_self(self, st, name, *args):
        """return terms of self.<name>() evaluated in state st (for to_hdf5 and other pure methods)"""
        c = st.copy()
        save = self.stack, self.raised, self.exc
        self.stack, self.raised, self.exc = [self.stack[0]], [], False
        try:
            f = self.prog.method(self.objcls[self.self_ref], name)
            if f is None:
                return []
            outs = self.inline(c, f, self.self_ref, [], {}, f.node)
            return [self.snap(s, r) for s, r in outs]
        finally:
            self.stack, self.raised, self.exc = save

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        outs, cur = [], [st]
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.stmt(s, c):
                    if o[0] == "n":
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            cur = nxt
            if len(cur) + len(outs) > MAXPATHS:
                raise TooManyPaths()
            if not cur:
                break
        outs.extend(("n", c, None) for c in cur)
        return outs

    def stmt(self, s, st):
        save = self.raised
        self.raised = []
        try:
            outs = self.stmt_(s, st)
            outs = outs + [("raise", rs, rv) for rs, rv in self.raised]
        finally:
            self.raised = save
        return outs

    def stmt_(self, s, st):
        k = type(s).__name__
        m = getattr(self, "s_" + k, None)
        if m is None:
            return [("n", st, None)]
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [("n", st, None)]
        if isinstance(s.value, ast.Yield) and self.yield_cb and self.yield_cb[-1][0] is self.stack[-1]:
            cb = self.yield_cb[-1][1]
            return cb(s.value, st)
        return [("n", c, None) for c, _ in self.ev(s.value, st, stmt=True)]

    def s_Pass(self, s, st):
        return [("n", st, None)]

    def s_Import(self, s, st):
        tab = {}
        self.stack[-1].module.add_import(s, tab)
        for n, d in tab.items():
            st.env[n] = self.new(st, ("glob", d))
        return [("n", st, None)]

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st):
        f = Func(s, self.stack[-1].module, None, self.stack[-1].func)
        key = ("func", "%s@%d" % (s.name, s.lineno))
        self.funcs[key] = (f, dict(st.env), self.stack[-1])
        st.env[s.name] = self.new(st, key)
        return [("n", st, None)]

    def s_ClassDef(self, s, st):
        st.env[s.name] = self.new(st, ("glob", s.name))
        return [("n", st, None)]

    def s_Global(self, s, st):
        return [("n", st, None)]

    s_Nonlocal = s_Global

    def s_Delete(self, s, st):
        outs = [st]
        for t in s.targets:
            if isinstance(t, ast.Name):
                for c in outs:
                    c.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                nxt = []
                for c in outs:
                    for c2, b in self.ev(t.value, c):
                        for c3, i in self.ev_index(t.slice, c2):
                            ct = self.snap(c3, b)
                            it = self.snap(c3, i)
                            if ct[0] == "dict" and T.is_const(it):
                                newt = ("dict", tuple((k, v) for k, v in c3.store[b][1] if k != it))
                            elif T.is_seq(ct) and T.is_num(it):
                                newt = ("popped", ct, it)
                            else:
                                newt = ("delitem", ct, it)
                            self.mutate(c3, b, "delitem", newt, (it,), t)
                            nxt.append(c3)
                outs = nxt
            elif isinstance(t, ast.Attribute):
                for c in outs:
                    for c2, b in self.ev(t.value, c):
                        self.event(c2, "store", t.attr, self.snap(c2, b), (("deleted",),), node=t, recv_ref=b)
        return [("n", c, None) for c in outs]

    def s_Assert(self, s, st):
        outs = []
        for c, v in self.branch(s.test, st):
            if v:
                outs.append(("n", c, None))
            else:
                outs.append(("raise", c, self.new(c, ("exc", "AssertionError"))))
        return outs

    def s_Raise(self, s, st):
        if s.exc is None:
            return [("raise", st, self.new(st, ("exc", "reraise")))]
        outs = []
        for c, r in self.ev(s.exc, st):
            outs.append(("raise", c, self.new(c, ("exc",) + (exc_name(self.snap(c, r)),))))
        return outs

    def s_Return(self, s, st):
        if s.value is None:
            return [("ret", st, self.new(st, NONE))]
        return [("ret", c, r) for c, r in self.ev(s.value, st)]

    def s_Break(self, s, st):
        return [("brk", st, None)]

    def s_Continue(self, s, st):
        return [("cont", st, None)]

    def s_Assign(self, s, st):
        outs = []
        # a, b = x, y keeps element identities
        for c, r in self.ev(s.value, st):
            states = [c]
            for t in s.targets:
                nxt = []
                for x in states:
                    nxt.extend(self.assign(t, x, r))
                states = nxt
            outs.extend(("n", x, None) for x in states)
        return outs

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [("n", st, None)]
        outs = []
        for c, r in self.ev(s.value, st):
            outs.extend(("n", x, None) for x in self.assign(s.target, c, r))
        return outs

    def s_AugAssign(self, s, st):
        outs = []
        op = s.op
        for c, r in self.ev(s.value, st):
            val = self.snap(c, r)
            if isinstance(s.target, ast.Name) or isinstance(s.target, ast.Attribute):
                for c2, tr in self.ev(_load(s.target), c):
                    old = self.snap(c2, tr)
                    new = self.binop(op, old, val)
                    rebind = T.is_const(old) or (T.is_num(val) and isinstance(op, (ast.Add, ast.Sub))) or \
                        T.is_str(old) or old[0] == "phi" or (old[0] == "fn" and old[1] == "len") or \
                        old[0] in ("tuple", "index") or is_boolish(val) or self._immutable(old)
                    if old[0] in ("list", "append", "listcat") and isinstance(op, ast.Add):
                        newstore = self.extend_term(c2, c2.store[tr], val, r)
                        self.mutate(c2, tr, "extend", newstore, (val,), s)
                        outs.append(("n", c2, None))
                        continue
                    if rebind:
                        nr = self.new(c2, new)
                        outs.extend(("n", x, None) for x in self.assign(s.target, c2, nr))
                    else:
                        self.mutate(c2, tr, "aug", new, (val,), s)
                        if isinstance(s.target, ast.Attribute):
                            outs.extend(("n", x, None) for x in self.assign(s.target, c2, tr))
                        else:
                            outs.append(("n", c2, None))
            elif isinstance(s.target, ast.Subscript):
                for c2, b in self.ev(s.target.value, c):
                    for c3, i in self.ev_index(s.target.slice, c2):
                        for c4, old in self.subscript(c3, b, i, s.target):
                            new = self.binop(op, self.snap(c4, old), val)
                            nr = self.new(c4, new)
                            outs.extend(("n", x, None) for x in self.setitem(c4, b, i, nr, s.target))
            else:
                outs.append(("n", c, None))
        return outs

    def _immutable(self, t):
        """numbers: lengths, indices, and sums of those"""
        if t[0] == "poly":
            return all(self._immutable(a) for m, _ in t[1] for a, _ in m)
        return t[0] in ("index", "rangeidx") or (t[0] == "fn" and t[1] in ("len", "int", "sum", "float"))

    def s_If(self, s, st):
        wm = self.nref
        base = len(st.facts)
        pre = list(st.facts)
        outs = []
        for c, v in self.branch(s.test, st):
            outs.extend(self.block(s.body if v else s.orelse, c))
        return self.merge(outs, wm, pre)

    def signature(self, st, wm):
        ev = tuple(id(e) for e in st.events if e.kind != "log")
        env = tuple(sorted((n, repr(self.snap(st, r))) for n, r in st.env.items()))
        heap = []
        for (r, a), v in st.heap.items():
            t = self.snap(st, v)
            if t[0] == "attr" and t[2] == a:
                continue
            heap.append((r, a, repr(t)))
        store = tuple((r, repr(t)) for r, t in sorted(st.store.items()) if r <= wm)
        return ev, env, tuple(sorted(heap)), store

    def merge(self, outs, wm, pre):
        normal = [o for o in outs if o[0] == "n"]
        if len(normal) < 2:
            return outs
        groups = {}
        for o in normal:
            groups.setdefault(self.signature(o[1], wm), []).append(o[1])
        if len(groups) == len(normal):
            return outs
        res = [o for o in outs if o[0] != "n"]
        for g in groups.values():
            st = g[0]
            if len(g) > 1:
                keep = []
                keys = [{(f.term, f.val) for f in x.facts} for x in g[1:]]
                for f in st.facts:
                    if all((f.term, f.val) in k for k in keys):
                        keep.append(f)
                drop = len(st.facts) - len(keep)
                have = {(f.term, f.val) for f in keep}
                rest = [[f for f in x.facts if (f.term, f.val) not in have] for x in g]
                st.facts = keep
                rest = _ladder(rest)
                # what the merged paths have in common: one of their conditions held
                if all(rest) and sum(len(x) for x in rest) <= 12 and not any(f.loops != g[0].loops for x in rest for f in x):
                    alt = T.or_(*[T.and_(*[_fact_term(f) for f in x]) for x in rest])
                    if not T.is_bool_const(alt):
                        last = rest[0][-1]
                        self.assume(st, alt, True, last.loc)
                if drop:
                    for n, e in enumerate(st.events):
                        if e.nfacts > len(keep):
                            e2 = _copy_event(e)
                            e2.nfacts = len(keep)
                            st.events[n] = e2
            res.append(("n", st, None))
        return res

    def s_Match(self, s, st):
        # treated as if/elif on equality of the subject with constant patterns
        outs = []
        for c, r in self.ev(s.subject, st):
            subj = self.snap(c, r)
            cur = [c]
            for case in s.cases:
                nxt = []
                for x in cur:
                    conds = []
                    p = case.pattern
                    pats = p.patterns if isinstance(p, ast.MatchOr) else [p]
                    if any(isinstance(q, ast.MatchAs) and q.pattern is None for q in pats):
                        outs.extend(self.block(case.body, x))
                        continue
                    for q in pats:
                        if isinstance(q, (ast.MatchValue, ast.MatchSingleton)):
                            v = ast.Constant(q.value) if isinstance(q, ast.MatchSingleton) else q.value
                            for _, vr in self.ev(v, x):
                                conds.append(T.cmp("==", subj, self.snap(x, vr)))
                    t = T.or_(*conds)
                    for y, v in self.fork(x, t, s):
                        if v:
                            outs.extend(self.block(case.body, y))
                        else:
                            nxt.append(y)
                cur = nxt
            outs.extend(("n", x, None) for x in cur)
        return outs

    def s_While(self, s, st):
        wm = self.nref
        outs, after = [], []
        assigned, attrs = assigned_names(s.body)
        always = isinstance(s.test, ast.Constant) and bool(s.test.value)
        lid = ("while", self.loc(s)[0], self.loc(s)[2], ast.unparse(s.test))
        pre = st.copy()
        for c, v in self.branch(s.test, st.copy()):
            if not v:
                after.append(c)
                continue
            saved = {}
            for n in assigned:
                if n in c.env:
                    saved[n] = self.snap(c, c.env[n])
                    c.env[n] = self.new(c, ("phi", n, saved[n], lid))
            for (r, a) in attrs_refs(c, attrs, self):
                c.heap[(r, a)] = self.new(c, ("phi", a, self.snap(c, c.heap[(r, a)]) if (r, a) in c.heap
                                              else ("attr", self.snap(c, r), a), lid))
            # the condition may talk about loop-carried values: do not keep facts about the first iteration only
            c.loops = c.loops + (lid,)
            for kind, x, val in self.block(s.body, c):
                x.loops = pre.loops
                if kind in ("n", "cont"):
                    if not always:
                        after.append(x)
                    elif self.loop_forever_paths:
                        outs.append(("loop", x, None))
                elif kind == "brk":
                    after.append(x)
                else:
                    outs.append((kind, x, val))
        for x in after:
            if s.orelse:
                outs.extend(self.block(s.orelse, x))
            else:
                outs.append(("n", x, None))
        return outs

    loop_forever_paths = True

    def s_With(self, s, st):
        return self.with_items(list(s.items), s, st)

    s_AsyncWith = s_With

    def with_items(self, items, s, st):
        if not items:
            return self.block(s.body, st)
        it, rest = items[0], items[1:]
        # a context manager written as a generator of the package
        if isinstance(it.context_expr, ast.Call):
            tgt = self.static_callee(it.context_expr, st)
            if tgt is not None:
                f, self_ref = tgt
                if f.contextmanager and f.is_generator and len(self.stack) < self.maxdepth:
                    return self.inline_cm(f, self_ref, it, rest, s, st)
        outs = []
        for c, r in self.ev(it.context_expr, st):
            t = self.snap(c, r)
            self.event(c, "enter", "with", t, node=s, recv_ref=r)
            states = [c]
            if it.optional_vars is not None:
                states = self.assign(it.optional_vars, c, self.new(c, ("entered", t), alias=(r,)))
            for x in states:
                for kind, y, val in self.with_items(rest, s, x):
                    self.event(y, "exit", "with", t, node=s, recv_ref=r)
                    outs.append((kind, y, val))
        return outs

    def static_callee(self, call, st):
        """(Func, self_ref) of a call that is statically a function/method of the package"""
        f = call.func
        if isinstance(f, ast.Name):
            if f.id in st.env:
                t = st.store.get(st.env[f.id])
                if t in self.funcs:
                    return self.funcs[t][0], None
                return None
            r = self.prog.lookup(self.stack[-1].module, f.id)
            if r and r[0] == "func":
                return r[1], None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in st.env:
            ref = st.env[f.value.id]
            c = self.objcls.get(ref)
            if c:
                m = self.prog.method(c, f.attr)
                if m:
                    return m, ref
        if isinstance(f, ast.Attribute):
            d = dotted(f)
            if d:
                parts = d.split(".")
                r = self.prog.lookup(self.stack[-1].module, parts[0])
                if r and r[0] == "module":
                    r = self.prog.resolve(r[1].name + "." + ".".join(parts[1:]))
                    if r[0] == "func":
                        return r[1], None
        return None

    def inline_cm(self, f, self_ref, it, rest, s, st):
        outs = []
        caller_env, caller_frame = st.env, self.stack[-1]
        for c, args, kw in self.ev_args(it.context_expr, st):
            env = self.bind(c, f, self_ref, args, kw)
            if env is None:
                continue
            caller = dict(c.env)
            c.env = env
            frame = Frame(f, f.cls, self_ref, self.objcls.get(self_ref), caller_frame)
            caller_stack = list(self.stack)

            def cb(ynode, y, frame=frame, caller=caller):
                vals = self.ev(ynode.value, y) if ynode.value is not None else [(y, self.new(y, NONE))]
                res = []
                for z, v in vals:
                    inner_env = z.env
                    z.env = dict(caller)
                    saved_stack, self.stack = self.stack, list(caller_stack)
                    saved_cb, self.yield_cb = self.yield_cb, self.yield_cb[:-1]
                    states = [z]
                    if it.optional_vars is not None:
                        states = self.assign(it.optional_vars, z, v)
                    for w in states:
                        for kind, q, val in self.with_items(rest, s, w):
                            new_caller = q.env
                            q.env = dict(inner_env)
                            q.env["#caller"] = new_caller
                            # return/break/continue in the body leaves through the finally part of the generator
                            res.append((kind, q, val))
                    self.stack, self.yield_cb = saved_stack, saved_cb
                return res

            self.stack.append(frame)
            self.yield_cb.append((frame, cb))
            try:
                res = self.block(f.node.body, c)
            finally:
                self.yield_cb.pop()
                self.stack.pop()
            for kind, x, val in res:
                x.env = dict(x.env.get("#caller", caller)) if isinstance(x.env.get("#caller", caller), dict) else dict(caller)
                outs.append((kind, x, val))
        return outs

    def s_Try(self, s, st):
        wm = self.nref
        self.try_depth += 1
        try:
            body = self.block(s.body, st)
        finally:
            self.try_depth -= 1
        outs = []
        for kind, c, val in body:
            if kind == "n" and s.orelse:
                outs.extend(self.block(s.orelse, c))
            elif kind == "raise" and s.handlers:
                outs.extend(self.handle(s, c, val))
            else:
                outs.append((kind, c, val))
        if s.finalbody:
            res = []
            for kind, c, val in outs:
                for k2, c2, v2 in self.block(s.finalbody, c):
                    if k2 == "n":
                        res.append((kind, c2, val))
                    else:
                        res.append((k2, c2, v2))
            outs = res
        return outs

    def handle(self, s, c, val):
        name = self.snap(c, val)
        ename = name[1] if name[0] == "exc" else "?"
        outs = []
        caught_all = False
        for h in s.handlers:
            types = handler_types(h)
            m = matches(ename, types)
            if m is False:
                continue
            x = c.copy()
            if h.name:
                x.env[h.name] = self.new(x, ("excobj", ename))
            self.event(x, "handler", ",".join(types), node=h, extra=ename)
            for k2, c2, v2 in self.block(h.body, x):
                if k2 == "raise" and self.snap(c2, v2) == ("exc", "reraise"):
                    v2 = val
                outs.append((k2, c2, v2))
            if m is True:
                caught_all = True
                break
        if not caught_all:
            outs.append(("raise", c, val))
        return outs

    # ------------------------------------------------------------------ loops
    def spec(self, node, st):
        """iteration space of an iterable expression: list of (state, units, elem, sources)
        units: list of refs if it can be unrolled, elem: nested structure of terms for the generic element"""
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id not in st.env and \
                not node.keywords or (isinstance(node, ast.Call) and isinstance(node.func, ast.Name)
                                      and node.func.id == "enumerate"):
            nm = node.func.id
            if nm == "enumerate" and node.args:
                outs = []
                startnode = node.args[1] if len(node.args) > 1 else next(
                    (k.value for k in node.keywords if k.arg == "start"), None)
                for c, units, elem, src, cnd in self.spec(node.args[0], st):
                    off = const(0)
                    if startnode is not None:
                        off = self.snap(c, self.ev(startnode, c)[0][1])
                    if units is not None:
                        u = [self.new(c, ("tuple", (("ref", self.new(c, T.add(const(i), off))), ("ref", r)))) for i, r in enumerate(units)]
                        outs.append((c, u, None, src, cnd))
                    else:
                        ix = ("index", filtered(elem, src, cnd) if cnd else src[0])
                        outs.append((c, None, ("tup", [("t", T.add(ix, off), None), elem]), src, cnd))
                return outs
            if nm == "zip" and node.args and not any(isinstance(a, ast.Starred) for a in node.args):
                acc = [(st, [])]
                for a in node.args:
                    acc = [(c2, specs + [(u, e, s2, cn)]) for c, specs in acc for c2, u, e, s2, cn in self.spec(a, c)]
                outs = []
                for c, specs in acc:
                    if all(u is not None for u, _, _, _ in specs):
                        n = min(len(u) for u, _, _, _ in specs)
                        units = [self.new(c, ("tuple", tuple(("ref", u[i]) for u, _, _, _ in specs))) for i in range(n)]
                        outs.append((c, units, None, (), ()))
                    else:
                        es, src, cn = [], [], ()
                        for u, e, s2, cnd in specs:
                            if e is None:
                                e = ("t", ("elem", ("list", tuple(self.snap(c, r) for r in u))), None)
                                s2 = (("list", tuple(self.snap(c, r) for r in u)),)
                            es.append(e)
                            src.extend(s2)
                            cn += cnd
                        kept = {s4[3] for s4 in specs if s4[1] is not None}
                        if len(kept) > 1:
                            # a filtered sequence is not aligned with the others
                            f = next(s4 for s4 in specs if s4[1] is not None and s4[3])
                            ix = ("index", filtered(f[1], f[2], f[3]))
                            es = [e if s4[3] else shifted(e, ix) for e, s4 in zip(es, specs)]
                        outs.append((c, None, ("tup", es), tuple(src), cn))
                return outs
            if nm == "range":
                outs = []
                acc = [(st, [])]
                for a in node.args:
                    acc = [(c2, v + [self.snap(c2, r)]) for c, v in acc for c2, r in self.ev(a, c)]
                for c, v in acc:
                    if all(T.is_num(x) for x in v):
                        rng = range(*[int(x[1]) for x in v])
                        if len(rng) <= 4:
                            outs.append((c, [self.new(c, const(i)) for i in rng], None, (), ()))
                            continue
                    lo = const(0) if len(v) == 1 else v[0]
                    hi = v[0] if len(v) == 1 else v[1]
                    if len(v) <= 2 and hi[0] == "fn" and hi[1] == "len" and lo == const(0):
                        outs.append((c, None, ("t", ("index", hi[2][0]), None), (hi[2][0],), ()))
                    else:
                        src = ("range", lo, hi) + ((v[2],) if len(v) == 3 else ())
                        outs.append((c, None, ("t", ("elem", src), None), (src,), ()))
                return outs
            if nm in ("list", "tuple", "iter") and len(node.args) == 1:
                return self.spec(node.args[0], st)
            if nm in ("reversed", "sorted", "set") and len(node.args) == 1:
                pass
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and not node.args and \
                node.func.attr in ("items", "keys", "iteritems"):
            outs = []
            for c, r in self.ev(node.func.value, st):
                t = self.snap(c, r)
                raw = c.store[r]
                if raw[0] == "dict" and len(raw[1]) <= 8 and self.unroll:
                    u = []
                    for k, v in raw[1]:
                        kr = self.new(c, self.resolve_refs(c, k))
                        vr = v[1] if v[0] == "ref" else self.new(c, v)
                        u.append(kr if node.func.attr == "keys" else self.new(c, ("tuple", (("ref", kr), ("ref", vr)))))
                    outs.append((c, u, None, (t,), ()))
                elif node.func.attr == "keys":
                    outs.append((c, None, ("t", ("key", t), None), (t,), ()))
                else:
                    outs.append((c, None, ("tup", [("t", ("key", t), None), ("t", ("val", t), r)]), (t,), ()))
            return outs
        outs = []
        for c, r in self.ev(node, st):
            self.deref(c, r, node, "iteration")
            outs.append((c,) + self.spec_ref(c, r))
        return outs

    def spec_ref(self, c, r):
        raw = c.store[r]
        t = self.snap(c, r)
        if raw[0] in ("list", "tuple", "set") and len(raw[1]) <= 8 and self.unroll:
            return ([x[1] if x[0] == "ref" else self.new(c, x) for x in raw[1]], None, (t,), ())
        if raw[0] == "dict":
            if len(raw[1]) <= 8 and self.unroll:
                return ([self.new(c, self.resolve_refs(c, k)) for k, _ in raw[1]], None, (t,), ())
        while t[0] == "fn" and t[1] in ("list", "tuple") and len(t[2]) == 1:
            t = t[2][0]
        if t[0] == "fn" and t[1] in ("zip", "enumerate", ".items", ".iteritems") and t[2]:
            return (None,) + self.term_spec(t)
        if t[0] == "comp" and len(t[3]) == 1 and t[1] != "dict":
            return (None, ("t", t[2], r), t[3], t[4])
        if t[0] == "comp" and t[1] == "dict" and len(t[3]) == 1:
            return (None, ("t", t[2][1][0], r), t[3], t[4])
        return (None, ("t", ("elem", t), r), (t,), ())

    def term_spec(self, t):
        """(structure of the generic element, sources, conditions) of a sequence given as a term"""
        while t[0] == "fn" and t[1] in ("list", "tuple", "iter") and len(t[2]) == 1:
            t = t[2][0]
        if t[0] == "fn" and t[1] == "zip" and t[2]:
            parts = [self.term_spec(x) for x in t[2]]
            f = [x for x in parts if x[2]]
            if f and len({x[2] for x in parts}) > 1:
                ix = ("index", filtered(*f[0]))
                parts = [x if x[2] else (shifted(x[0], ix),) + x[1:] for x in parts]
            return ("tup", [x[0] for x in parts]), tuple(y for x in parts for y in x[1]), tuple(y for x in parts for y in x[2])
        if t[0] == "fn" and t[1] == "enumerate" and len(t[2]) == 1 and not t[3]:
            e, src, cnd = self.term_spec(t[2][0])
            return ("tup", [("t", ("index", filtered(e, src, cnd) if cnd else src[0]), None), e]), src, cnd
        if t[0] == "fn" and t[1] in (".items", ".iteritems") and len(t[2]) == 1:
            x = t[2][0]
            return ("tup", [("t", ("key", x), None), ("t", ("val", x), None)]), (x,), ()
        if t[0] == "comp" and len(t[3]) == 1 and t[1] != "dict":
            return ("t", t[2], None), t[3], t[4]
        return ("t", ("elem", t), None), (t,), ()

    def bind_struct(self, target, elem, c):
        """bind a loop target to the generic element structure"""
        if elem[0] == "t":
            r = self.new(c, elem[1], alias=(elem[2],) if elem[2] else ())
            return self.assign(target, c, r, quiet=True)
        if isinstance(target, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in target.elts) \
                and len(target.elts) == len(elem[1]):
            states = [c]
            for t, e in zip(target.elts, elem[1]):
                states = [y for x in states for y in self.bind_struct(t, e, x)]
            return states
        return self.assign(target, c, self.struct_ref(elem, c), quiet=True)

    def struct_ref(self, elem, c):
        if elem[0] == "t":
            return self.new(c, elem[1], alias=(elem[2],) if elem[2] else ())
        return self.new(c, ("tuple", tuple(("ref", self.struct_ref(e, c)) for e in elem[1])))

    def s_For(self, s, st):
        outs = []
        for c, units, elem, src, conds in self.spec(s.iter, st):
            if units is not None:
                outs.extend(self.unrolled(s, c, units))
            else:
                outs.extend(self.generic_for(s, c, elem, src, conds))
        return outs

    s_AsyncFor = s_For

    def unrolled(self, s, st, units):
        cur, outs, after = [st], [], []
        for u in units:
            nxt = []
            for c in cur:
                for x in self.assign(s.target, c, u, quiet=True):
                    for kind, y, val in self.block(s.body, x):
                        if kind in ("n", "cont"):
                            nxt.append(y)
                        elif kind == "brk":
                            after.append(y)
                        else:
                            outs.append((kind, y, val))
            cur = nxt
            if len(cur) > 512:
                raise TooManyPaths()
        for c in cur:
            if s.orelse:
                outs.extend(self.block(s.orelse, c))
            else:
                outs.append(("n", c, None))
        outs.extend(("n", c, None) for c in after)
        return outs

    def labelled(self, t):
        """the term is a series: its type is documented"""
        if t[0] == "fn" and t[1].lstrip(".") in ("copy", "deepcopy", "sort_index", "dropna", "intersection") and t[2]:
            return self.labelled(t[2][0])
        if t[0] == "fn" and t[1] == ".reindex":
            return True
        if t[0] == "setitem":
            return self.labelled(t[1])
        if t[0] == "item":
            return self.labelled(t[1]) and t[2][0] in ("attr", "fn")
        if t[0] == "poly":
            return any(self.labelled(a) for m, _ in t[1] for a, _ in m)
        if t[0] == "attr" and t[2] == "index":
            return True
        if t[0] == "param":
            f = self.stack[0].func
            a = f.annotations().get(t[1])
            return a is not None and ast.unparse(a).endswith("Series")
        names = self.prog.series_names()
        if t[0] == "attr":
            return t[2].lstrip("_") in names
        return t[0] in ("mcall", "call") and (t[2] if t[0] == "mcall" else t[1]) in names

    def whole_assign(self, t, src):
        old, k, v = t[1:]
        if k == ("key", src) and self.labelled(src):
            I = T.index_of(src)
        elif k == ("elem", src) and (self.labelled(src) or src[0] == "fn" and src[1] in ("intersection", "setdiff", "sorted", "list")):
            I = src
        elif k == ("elem", src[2][0] if src[0] == "fn" and src[2] else None):
            return None
        else:
            return None
        if not (self.labelled(old) or self.labelled(src)):
            return None

        def lift(x):
            """(whole term, has labels)"""
            if x == ("val", src) or x == ("elem", src) and self.labelled(src) and src[0] != "attr" and k[0] == "key":
                return src, True
            if x[0] == "elem" and T.index_of(x[1]) == I:
                return x[1], True
            if x[0] == "item" and x[2] == k and not any(y in (k, ("val", src)) for y in T.subterms(x[1])):
                return T.item(x[1], I), True
            if x[0] == "poly":
                tot, lab_ = const(0), False
                for m, c in x[1]:
                    mono = ("const", c)
                    for a, e in m:
                        w, l = lift(a)
                        if w is None:
                            return None, False
                        lab_ = lab_ or l
                        mono = T.mul(mono, T.power(w, e))
                    tot = T.add(tot, mono)
                return tot, lab_
            if x[0] == "fn" and x[1] in ("abs", "sqrt") and len(x[2]) == 1:
                w, l = lift(x[2][0])
                return (None, False) if w is None else (fn(x[1], w), l)
            if any(y in (k, ("val", src), ("elem", src)) for y in T.subterms(x)):
                return None, False
            return x, False

        w, lab_ = lift(v)
        if w is None:
            return None
        if lab_ and I == T.index_of(old) and T.index_of(w) == I:
            return w
        return ("setitem", old, I, w)

    def generic_for(self, s, st, elem, src, conds):
        wm = self.nref
        pre = st
        pre_facts = list(st.facts)
        assigned, attrs = assigned_names(s.body)
        lid = tuple(src)
        c = st.copy()
        counters = counter_names(s.body)
        phis = {}
        for n in assigned:
            if n in c.env:
                old = self.snap(c, c.env[n])
                if n in counters:
                    c.env[n] = self.new(c, T.add(old, ("index", src[0])))
                    phis[n] = old
                    continue
                phis[n] = old
                c.env[n] = self.new(c, ("phi", n, old, lid))
        aphis = {}
        for (r, a) in attrs_refs(c, attrs, self):
            old = self.snap(c, c.heap[(r, a)]) if (r, a) in c.heap else ("attr", self.snap(c, r), a)
            aphis[(r, a)] = (old, c.heap.get((r, a)))
            c.heap[(r, a)] = self.new(c, ("phi", a, old, lid))
        # containers that are filled in the body
        accs = {}
        for r, t in list(c.store.items()):
            if r <= wm and t[0] in ("list", "listcat", "dict", "comp", "append") :
                accs[r] = t
        for r, t in accs.items():
            if t[0] != "dict":
                c.store[r] = ("accphi", r, t) if False else t
        c.loops = c.loops + (lid,)
        nf = len(c.facts)
        for cd in conds:
            self.assume(c, cd, True, s)
        outs, after, ends, broke = [], [], [], []
        for x in self.bind_struct(s.target, elem, c):
            for kind, y, val in self.block(s.body, x):
                y.loops = pre.loops
                if kind in ("n", "cont"):
                    ends.append(y)
                elif kind == "brk":
                    broke.append(y)
                else:
                    outs.append((kind, y, val))
        # flags set in the body:  ok = True; for x in xs: if bad(x): ok = False
        flags = {}
        for n, old in phis.items():
            ph = ("phi", n, old, lid)
            vals = [self.snap(y, y.env[n]) if n in y.env else None for y in ends]
            if n in counters or broke or any(v is None for v in vals) or all(v == ph for v in vals):
                continue
            for conj in (True, False):
                sofar = [next((f.val for f in y.facts[nf:] if f.term == ph), None) for y in ends]
                neutral = TRUE if conj else FALSE
                rest = [neutral if v in (ph, T.not_(neutral)) and h == (not conj) else
                        v if h == conj and not T.contains(v, ph) and is_boolish(v) else _monotone(v, ph, conj)
                        for v, h in zip(vals, sofar)]
                if any(r is None for r in rest):
                    continue
                cond = T.or_(*[T.and_(*([_fact_term(f) for f in y.facts[nf:] if f.term != ph] + [T.not_(r) if conj else r]))
                               for y, r in zip(ends, rest) if r != neutral])
                if T.contains(cond, ph):
                    continue
                for y in ends:
                    if any(f.term == ph for f in y.facts):
                        y.facts = [f for f in y.facts if f.term != ph]
                        y.events = [e if e.nfacts <= len(y.facts) else _clip(e, len(y.facts)) for e in y.events]
                some = T.any_(("comp", "gen", cond, tuple(src), ()))
                flags[n] = T.and_(T.truth(old), T.not_(some)) if conj else T.or_(T.truth(old), some)
                break
        # what an early exit, or its absence, says about all elements
        if outs or broke:
            for k, y in [(o[0], o[1]) for o in outs] + [("break", y) for y in broke]:
                self.event(y, "leave", k, node=s, extra=lid)
            for y in [o[1] for o in outs] + broke:
                t = T.and_(*[_fact_term(f) for f in y.facts[nf:]])
                y.facts.append(Fact(T.any_(("comp", "gen", t, tuple(src), ())), True, self.loc(s), pre.loops))
            t = T.or_(*[T.and_(*[_fact_term(f) for f in y.facts[nf:]]) for y in ends])
            for y in ends:
                q = T.any_(("comp", "gen", T.not_(t), tuple(src), ()))
                if not T.is_bool_const(q):
                    y.facts.append(Fact(q, False, self.loc(s), pre.loops))
        # accumulators -> comprehensions
        whole = {}
        for y in ends + broke:
            # with one way through the body only what selects the elements of the source is a condition
            newconds = tuple(_fact_term(f) for f in y.facts[nf:]) if len(ends) > 1 else tuple(conds)
            for r, t in accs.items():
                cur = y.store.get(r)
                if cur == t or cur is None:
                    continue
                y.store[r] = self.accumulate(y, t, cur, src, newconds, bool(newconds))
                if y.store[r] not in whole.setdefault(r, []):
                    whole[r].append(y.store[r])
        for y in ends:
            for n, old in phis.items():
                cur = self.snap(y, y.env[n]) if n in y.env else old
                ph = ("phi", n, old, lid)
                if n in counters:
                    y.env[n] = self.new(y, T.add(old, fn("len", src[0])))
                elif n in flags:
                    y.env[n] = self.new(y, flags[n])
                elif cur == ph:
                    y.env[n] = pre.env[n]
                elif T.contains(cur, ph) and cur[0] == "poly":
                    d = T.sub(cur, ph)
                    if not T.contains(d, ph):
                        y.env[n] = self.new(y, T.add(old, ("fn", "sum", (("comp", "gen", d, tuple(src), ()),), ())))
                elif cur[0] == "fn" and cur[1] == "union" and ph in cur[2] and len(ends) == 1:
                    rest = [z for z in cur[2] if z != ph]
                    if not any(T.contains(z, ph) for z in rest):
                        cp = fn("unionover", *[("comp", "gen", z, tuple(src), ()) for z in rest])
                        y.env[n] = self.new(y, cp if old in (("set", ()), fn("set")) else fn("union", old, cp))
                elif cur[0] in ("and", "or") and ph in cur[1]:
                    rest = tuple(z for z in cur[1] if z != ph)
                    inner = T.and_(*rest) if cur[0] == "and" else T.or_(*rest)
                    cp = ("comp", "gen", inner, tuple(src), ())
                    y.env[n] = self.new(y, T.and_(T.truth(old), T.all_(cp)) if cur[0] == "and" else T.or_(T.truth(old), T.any_(cp)))
            for (r, a), (old, oldref) in aphis.items():
                cur = self.snap(y, y.heap[(r, a)])
                if cur == ("phi", a, old, lid):
                    if oldref is None:
                        y.heap.pop((r, a), None)
                    else:
                        y.heap[(r, a)] = oldref
        # an assignment per label without condition is one assignment of the whole series
        if len(ends) == 1 and not broke and not outs and len(ends[0].facts) == nf and len(src) == 1 and not conds:
            y = ends[0]
            for r, t in list(y.store.items()):
                if r <= wm and t[0] == "setitem" and t[1] == pre.store.get(r):
                    w = self.whole_assign(t, src[0])
                    if w is not None:
                        y.store[r] = w
        # drop loop variables' facts? they are tagged with their loop context instead
        merged = self.merge([("n", y, None) for y in ends], wm, pre_facts) if len(ends) > 1 else [("n", y, None) for y in ends]
        merged = self.merge_accs(merged, accs, wm)
        # what a container holds after the loop does not depend on how one iteration went
        for r, parts in whole.items():
            if len(merged) > 1 and len({o[1].store.get(r) for o in merged}) > 1 and not broke:
                u = parts[0]
                for q in parts[1:]:
                    u = ("either", u, q)
                for o in merged:
                    o[1].store[r] = u
        fall = [o[1] for o in merged]
        if not ends or self.skip_paths:
            sk = pre.copy()
            fall.append(sk)
        for y in fall:
            if s.orelse:
                outs.extend(self.block(s.orelse, y))
            else:
                outs.append(("n", y, None))
        outs.extend(("n", y, None) for y in broke)
        return outs

    def accumulate(self, y, old, cur, src, conds, several):
        """store term of a container after a loop whose generic iteration turned old into cur"""
        if old[0] == "dict" and cur[0] == "dict":
            added = [kv for kv in cur[1] if kv not in old[1]]
            if len(added) == 1 and not T.is_const(added[0][0]):
                k, v = added[0]
                cp = ("comp", "dict", ("tuple", (k, v)), tuple(src), conds if several else ())
                if not old[1]:
                    return cp
                return ("merge", ("dict", old[1]), cp)
            return cur
        if old[0] == "dict" and cur[0] == "setitem":
            return ("merge", old, ("comp", "dict", ("tuple", (cur[2], cur[3])), tuple(src), conds if several else ())) \
                if old[1] else ("comp", "dict", ("tuple", (cur[2], cur[3])), tuple(src), conds if several else ())
        if old[0] == "list" and cur[0] == "list" and cur[1][:len(old[1])] == old[1]:
            added = cur[1][len(old[1]):]
            if len(added) == 1:
                cp = ("comp", "list", added[0], tuple(src), conds if several else ())
                if not old[1]:
                    # nested loops: appending inside an inner loop
                    return cp
                return ("listcat", ("list", old[1]), cp)
        if cur[0] == "append" and cur[1] == old:
            cp = ("comp", "list", cur[2], tuple(src), conds if several else ())
            return ("listcat", old, cp)
        if cur[0] == "merge" and len(cur) == 3 and cur[1] == old and cur[2][0] == "comp" and old[0] == "dict":
            i = cur[2]
            return ("merge", old, ("comp", i[1], i[2], tuple(src) + i[3], i[4] + (conds if several else ())))
        if cur[0] == "comp" and (old == ("list", ()) or old == ("dict", ()) and cur[1] == "dict"):
            return ("comp", cur[1], cur[2], tuple(src) + cur[3], cur[4] + (conds if several else ()))
        if cur[0] == "listcat" and cur[1] == old and cur[2][0] == "comp":
            i = cur[2]
            return ("listcat", old, ("comp", i[1], i[2], tuple(src) + i[3], i[4] + (conds if several else ())))
        return cur

    def merge_accs(self, outs, accs, wm):
        """states that differ only in whether a container got an element are one state (conditional comprehension)"""
        if len(outs) < 2:
            return outs
        states = [o[1] for o in outs]
        base = min(states, key=lambda y: sum(1 for r, t in accs.items() if y.store.get(r) != t))
        res = []
        for y in states:
            if y is base:
                continue
            ch = [r for r, t in accs.items() if y.store.get(r) != t]
            if not ch or not all(y.store[r][0] in ("comp", "listcat", "merge") for r in ch):
                return outs
            z = y.copy()
            for r in ch:
                z.store[r] = base.store[r]
            if self.signature(z, wm) != self.signature(base, wm):
                return outs
            res.append((y, ch))
        # several appending branches on different containers or the same one
        final = base.copy()
        for y, ch in res:
            for r in ch:
                if final.store[r] == accs[r]:
                    final.store[r] = y.store[r]
                else:
                    final.store[r] = ("either", final.store[r], y.store[r])
                for k, v in y.store.items():
                    final.store.setdefault(k, v)
        keys = [{(f.term, f.val) for f in y.facts} for y, _ in res]
        final.facts = [f for f in final.facts if all((f.term, f.val) in k for k in keys)]
        final.events = [e if e.nfacts <= len(final.facts) else _clip(e, len(final.facts)) for e in final.events]
        for y, _ in res:
            for e in y.events:
                if e.kind in ("log", "mutate") and e not in final.events:
                    final.events.append(_clip(e, min(e.nfacts, len(final.facts))))
        return [("n", final, None)]

    # ------------------------------------------------------------------ conditions
    def fork(self, st, t, node):
        d = self.decide(st, t)
        if d is not None:
            return [(st, d)]
        a, b = st.copy(), st
        self.assume(a, t, True, node)
        self.assume(b, t, False, node)
        return [(a, True), (b, False)]

    def split(self, st, t, node):
        """a condition computed before the test is split like one written into it"""
        neg = t[0] == "not"
        u = t[1] if neg else t
        if u[0] not in ("and", "or") or self.decide(st, t) is not None:
            return self.fork(st, t, node)
        isand = u[0] == "and"
        cur, out = [st], []
        for x in u[1]:
            nxt = []
            for c in cur:
                for c2, v in self.split(c, x, node):
                    if v != isand:
                        out.append((c2, v != neg))
                    else:
                        nxt.append(c2)
            cur = nxt
        return out + [(c, isand != neg) for c in cur]

    def branch(self, node, st):
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            cur, res = [st], []
            for i, v in enumerate(node.values):
                nxt = []
                for c in cur:
                    for x, b in self.branch(v, c):
                        if b != isand:
                            res.append((x, b))
                        else:
                            nxt.append(x)
                cur = nxt
            return res + [(c, isand) for c in cur]
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(c, not v) for c, v in self.branch(node.operand, st)]
        if isinstance(node, ast.IfExp):
            out = []
            for c, v in self.branch(node.test, st):
                out.extend(self.branch(node.body if v else node.orelse, c))
            return out
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "bool" and len(node.args) == 1 \
                and "bool" not in st.env:
            return self.branch(node.args[0], st)
        # any(...)/all(...) over a generator: a search loop
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("any", "all") and \
                node.func.id not in st.env and len(node.args) == 1 and \
                isinstance(node.args[0], (ast.GeneratorExp, ast.ListComp)) and self.search_loops and not self.comp_mode:
            return self.search(node.args[0], st, node.func.id == "all")
        out = []
        for c, r in self.ev(node, st):
            v = self.snap(c, r)
            t = T.truth(v)
            out.extend(self.split(c, t, node) if isinstance(node, ast.Name) and v[0] in ("and", "or", "not", "boolop") else self.fork(c, t, node))
        return out

    search_loops = False

    def search(self, comp, st, isall):
        """all(c for x in it) as a loop: some element violates it -> False; else True (generic element satisfies it)"""
        out = []

        def rec(i, c, loops):
            if i == len(comp.generators):
                for x, v in self.branch(comp.elt, c):
                    x.loops = loops
                    out.append((x, v))
                return
            g = comp.generators[i]
            for c2, units, elem, src, conds in self.spec(g.iter, c):
                if units is not None:
                    elem = ("t", ("elem", ("list", tuple(self.snap(c2, u) for u in units))), None)
                c2.loops = c2.loops + (tuple(src),)
                for cd in conds:
                    self.assume(c2, cd, True, comp)
                for x in self.bind_struct(g.target, elem, c2):
                    cur = [x]
                    for cond in g.ifs:
                        cur = [y for z in cur for y, v in self.branch(cond, z) if v]
                    for y in cur:
                        rec(i + 1, y, loops)
        rec(0, st, st.loops)
        if isall:
            return out
        return out

    def cond_term(self, node, st):
        """condition as one term, no partitioning: list of (state, term)"""
        if isinstance(node, ast.BoolOp):
            acc = [(st, [])]
            for v in node.values:
                acc = [(c2, ts + [t]) for c, ts in acc for c2, t in self.cond_term(v, c)]
            return [(c, T.and_(*ts) if isinstance(node.op, ast.And) else T.or_(*ts)) for c, ts in acc]
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(c, T.not_(t)) for c, t in self.cond_term(node.operand, st)]
        return [(c, T.truth(self.snap(c, r))) for c, r in self.ev(node, st)]

    # ------------------------------------------------------------------ assignment
    def assign(self, target, st, r, quiet=False):
        if isinstance(target, ast.Name):
            st.env[target.id] = r
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            elts = target.elts
            raw = st.store[r]
            states = [st]
            star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
            if raw[0] in ("list", "tuple") and (len(raw[1]) == len(elts) if star is None else len(raw[1]) >= len(elts) - 1):
                refs = [x[1] if x[0] == "ref" else self.new(st, x) for x in raw[1]]
                if star is not None:
                    k = len(refs) - len(elts) + 1
                    mid = self.new(st, ("list", tuple(("ref", q) for q in refs[star:star + k])))
                    refs = refs[:star] + [mid] + refs[star + k:]
            else:
                t = self.snap(st, r)
                refs = []
                n = len(elts)
                for i in range(n):
                    if star is not None and i == star:
                        refs.append(self.new(st, ("rest", t, i)))
                    elif star is not None and i > star:
                        refs.append(self.new(st, item(t, const(i - n))))
                    elif t[0] == "comp" and len(t[3]) == 1 and not t[4]:
                        refs.append(self.new(st, ("item", t, const(i)), alias=(r,)))
                    elif t[0] == "fn" and t[1] == "unzip":
                        refs.append(self.new(st, ("comp", "list", item(("elem", t[2][0]), const(i)), (t[2][0],), ())))
                    else:
                        refs.append(self.new(st, item(t, const(i)), alias=(r,)))
            for e, q in zip(elts, refs):
                tgt = e.value if isinstance(e, ast.Starred) else e
                states = [y for x in states for y in self.assign(tgt, x, q)]
            return states
        if isinstance(target, ast.Starred):
            return self.assign(target.value, st, r)
        if isinstance(target, ast.Attribute):
            outs = []
            for c, b in self.ev(target.value, st):
                outs.extend(self.setattr_(c, b, target.attr, r, target))
            return outs
        if isinstance(target, ast.Subscript):
            outs = []
            for c, b in self.ev(target.value, st, lvalue=True):
                for c2, i in self.ev_index(target.slice, c):
                    outs.extend(self.setitem(c2, b, i, r, target))
            return outs
        return [st]

    def setattr_(self, st, b, name, r, node):
        cls = self.objcls.get(b)
        if cls is not None:
            f = self.prog.setter(cls, name)
            if f is not None and name not in self.opaque_props and (cls.name + "." + name) not in self.opaque \
                    and len(self.stack) < self.maxdepth:
                return [c for c, _ in self.inline(st, f, b, [r], {}, node)]
        self.event(st, "store", name, self.snap(st, b), (self.snap(st, r),), node=node, recv_ref=b, arg_refs=(r,))
        st.heap[(b, name)] = r
        return [st]

    def setitem(self, st, b, i, r, node):
        bt, it, vt = self.snap(st, b), self.snap(st, i), self.snap(st, r)
        raw = st.store[b]
        it, vt = same_order(it, vt)
        # x.loc[...] = v / x.iloc[...] = v / x.values[...] = v change x
        if bt[0] == "fn" and bt[1] in ("loc", "iloc", "at", "iat", "values") and len(bt[2]) == 1 and b in self.alias:
            base = self.alias[b][0]
            old = self.snap(st, base)
            kind = bt[1]
            if kind in ("loc", "at"):
                if it[0] == "tuple" and len(it[1]) == 2:
                    if it[1][0] == ("slice", NONE, NONE, NONE):
                        newt = ("setitem", old, it[1][1], vt)
                    else:
                        newt = ("setloc", old, it[1][0], it[1][1], vt)
                else:
                    newt = ("setitem", old, it, ("fn", "aligned", (vt,), ()) if self.labels else vt)
            else:
                newt = ("set" + kind, old, it, vt)
            self.mutate(st, base, "setitem", newt, (it, vt), node)
            return [st]
        # df['col'].loc[rows] = v / df['col'][rows] = v : chained, changes df
        if bt[0] == "item" and b in self.alias and T.is_const(bt[2]) and not raw[0] in ("dict", "list"):
            base = self.alias[b][0]
            old = self.snap(st, base)
            newt = ("setloc", old, it, bt[2], vt)
            self.mutate(st, base, "setitem", newt, (it, vt), node)
            st.store[b] = ("setitem", bt, it, vt)
            return [st]
        if raw[0] == "dict" and (T.is_const(it) or True):
            items = []
            done = False
            for k, v in raw[1]:
                if self.resolve_refs(st, k) == it:
                    items.append((k, ("ref", r)))
                    done = True
                else:
                    items.append((k, v))
            if not done:
                items.append((it, ("ref", r)))
            newt = ("dict", tuple(items))
        elif raw[0] in ("list",) and T.is_num(it) and it[1].denominator == 1 and -len(raw[1]) <= int(it[1]) < len(raw[1]):
            l = list(raw[1])
            l[int(it[1])] = ("ref", r)
            newt = ("list", tuple(l))
        else:
            old = bt
            if old[0] == "setitem" and old[2] == it:
                old = old[1]
            newt = ("setitem", old, it, vt)
        self.mutate(st, b, "setitem", newt, (it, vt), node)
        return [st]

    def mutate(self, st, r, how, newterm, args, node):
        old = self.snap(st, r)
        st.store[r] = newterm
        chain = [self.snap(st, x) if x != r else old for x in self.roots(r)]
        self.event(st, "mutate", how, old, args, node=node, recv_ref=r, extra=chain)
        # a view changes what it is a view of
        for x in self.roots(r)[1:]:
            t = st.store.get(x)
            if t is not None and t[0] not in ("self",) and how in ("setitem", "aug", "sort", "fill"):
                inner = self.resolve_refs(st, t)
                if self.alias_kind(old, inner):
                    st.store[x] = ("setview", inner, self.resolve_refs(st, newterm))
        for key in [k for k in st.heap if k[0] == r and k[1] in DATA_ATTRS]:
            del st.heap[key]

    def alias_kind(self, view, base):
        return view[0] == "fn" and view[1] in ("values", "squeeze", "ravel", "asarray", "T") and view[2] and view[2][0] == base

    # ------------------------------------------------------------------ attributes
    def getattr_(self, st, b, name, node):
        base = st.store[b]
        self.deref(st, b, node, "attribute " + name)
        if base[0] == "glob":
            return self.global_(st, base[1] + "." + name)
        if base[0] == "enum" and name == "value":
            return [(st, self.new(st, base[3] if len(base) > 3 else ("attr", base, "value")))]
        if base[0] == "cls":
            c = self.prog.classes.get(base[1])
            if c:
                if name in [n for k in self.prog.mro(c) for n in k.inner]:
                    k = next(k for k in self.prog.mro(c) if name in k.inner)
                    return [(st, self.new(st, ("enumcls", k.name, name)))]
                ca = self.prog.class_attr(c, name)
                if ca:
                    return self.class_const(st, ca, name)
            return [(st, self.new(st, ("attr", base, name)))]
        if base[0] == "enumcls":
            return [(st, self.new(st, self.enum_member(base, name)))]
        if (b, name) in st.heap:
            return [(st, st.heap[(b, name)])]
        cls = self.objcls.get(b)
        if cls is not None:
            g = self.prog.getter(cls, name)
            if g is not None and name not in self.opaque_props and (cls.name + "." + name) not in self.opaque:
                if len(self.stack) < self.maxdepth and not any(f.func is g for f in self.stack):
                    return self.inline(st, g, b, [], {}, node)
            for k in self.prog.mro(cls):
                if name in k.inner:
                    return [(st, self.new(st, ("enumcls", k.name, name)))]
            m = self.prog.method(cls, name)
            if m is not None:
                return [(st, self.new(st, ("bound", self.snap(st, b), name)))]
            ca = self.prog.class_attr(cls, name)
            if ca and not self.instance_attr(cls, name):
                return self.class_const(st, ca, name)
            r = self.new(st, ("attr", self.snap(st, b), name), alias=(b,))
            st.heap[(b, name)] = r
            tc = self.types.get(("attr", name))
            if tc:
                self.objcls[r] = self.prog.cls(tc)
            return [(st, r)]
        t = self.snap(st, b)
        if name in TARGET_COLS:
            return [(st, self.new(st, item(t, const(name)), alias=(b,)))]
        if name in DATA_ATTRS:
            return [(st, self.data_attr(st, b, t, name))]
        if name in ("__dict__", "__class__", "__name__", "__doc__"):
            return [(st, self.new(st, ("attr", t, name), alias=(b,)))]
        r = self.new(st, ("attr", t, name), alias=(b,))
        st.heap[(b, name)] = r
        return [(st, r)]

    def instance_attr(self, cls, name):
        """is self.<name> assigned anywhere in the class hierarchy?"""
        key = (cls.name, name)
        cache = self.__dict__.setdefault("_ia", {})
        if key not in cache:
            cache[key] = any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store)
                             for k in self._family(cls) for n in ast.walk(k.node))
        return cache[key]

    def _family(self, cls):
        return self.prog.mro(cls) + [k for k in self.prog.classes.values() if cls in self.prog.mro(k)]

    def class_const(self, st, ca, name):
        k, node = ca
        if isinstance(node, ast.Constant):
            return [(st, self.new(st, const(node.value)))]
        return [(st, self.new(st, ("clsattr", k.name, name)))]

    def enum_member(self, base, name):
        c = self.prog.classes.get(base[1])
        val = None
        if c:
            for s in c.inner[base[2]].body:
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name \
                        and isinstance(s.value, ast.Constant):
                    val = const(s.value.value)
        return ("enum", base[2], name) + ((val,) if val else ())

    def data_attr(self, st, b, t, name):
        if name in ("size",):
            return self.new(st, fn("len", t))
        if name == "empty":
            return self.new(st, T.cmp("==", fn("len", t), const(0)))
        if name == "hasnans":
            return self.new(st, fn("any", fn("isna", t)))
        if name in ("index", "columns"):
            # selecting rows/columns keeps the labels of the selector
            if t[0] == "fn" and t[1] == "Series" and name == "index":
                kw = dict(t[3])
                if "index" in kw:
                    return self.new(st, kw["index"])
            if name == "index":
                return self.new(st, T.index_of(t))
            return self.new(st, T.columns_of(t))
        if name in ("values", "array"):
            return self.new(st, fn("values", t), alias=(b,))
        return self.new(st, fn(name, t), alias=(b,))

    def global_(self, st, dotted_):
        r = self.prog.resolve(dotted_)
        if r[0] == "const":
            return self.module_const(st, r[1], r[2])
        if r[0] == "func" and r[1].cls is not None:
            return [(st, self.new(st, ("glob", dotted_)))]
        if r[0] == "class":
            return [(st, self.new(st, ("cls", r[1].name)))]
        if r[0] == "func":
            return [(st, self.new(st, ("gfunc", r[1].module.name + "." + r[1].name)))]
        if dotted_ in ("numpy.nan", "numpy.NaN", "numpy.NAN", "math.nan"):
            return [(st, self.new(st, T.NAN))]
        if dotted_ in ("numpy.inf", "numpy.Inf", "math.inf", "numpy.infty"):
            return [(st, self.new(st, T.INF))]
        return [(st, self.new(st, ("glob", dotted_)))]

    def module_const(self, st, m, name):
        v = m.consts.get(name)
        if isinstance(v, ast.Constant):
            return [(st, self.new(st, const(v.value)))]
        if isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Constant):
            try:
                return [(st, self.new(st, const(ast.literal_eval(v))))]
            except Exception:
                pass
        if isinstance(v, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Constant) for e in v.elts):
            return [(st, self.new(st, ("tuple" if isinstance(v, ast.Tuple) else "list",
                                       tuple(const(e.value) for e in v.elts))))]
        if isinstance(v, (ast.Name, ast.Attribute)):
            d = dotted(v)
            if d:
                parts = d.split(".")
                r = self.prog.lookup(m, parts[0])
                if r and r[0] == "module" and len(parts) > 1:
                    return self.global_(st, r[1].name + "." + ".".join(parts[1:]))
                if r and r[0] == "ext":
                    return self.global_(st, ".".join([r[1]] + parts[1:]))
        return [(st, self.new(st, ("glob", m.name + "." + name)))]

    # ------------------------------------------------------------------ expressions
    def ev(self, node, st, stmt=False, lvalue=False):
        m = getattr(self, "e_" + type(node).__name__, None)
        if self.maxsteps is not None:
            self.steps += 1
            if self.steps > self.maxsteps:
                raise TooManyPaths()
        if m is None:
            return [(st, self.new(st, ("unk", type(node).__name__)))]
        if type(node) is ast.Call:
            return m(node, st, stmt)
        return m(node, st)

    def e_Constant(self, n, st):
        return [(st, self.new(st, const(n.value)))]

    def e_Name(self, n, st):
        if n.id in st.env:
            return [(st, st.env[n.id])]
        fr = self.stack[-1]
        r = self.prog.lookup(fr.module, n.id)
        if r is None:
            if n.id in ("NotImplemented", "Ellipsis"):
                return [(st, self.new(st, ("glob", n.id)))]
            return [(st, self.new(st, ("builtin", n.id)))]
        if r[0] == "module":
            return [(st, self.new(st, ("glob", r[1].name)))]
        if r[0] == "const":
            return self.module_const(st, r[1], r[2])
        if r[0] == "class":
            return [(st, self.new(st, ("cls", r[1].name)))]
        if r[0] == "func":
            return [(st, self.new(st, ("gfunc", r[1].module.name + "." + r[1].name)))]
        return self.global_(st, r[1])

    def e_Attribute(self, n, st):
        out = []
        for c, b in self.ev(n.value, st):
            out.extend(self.getattr_(c, b, n.attr, n))
        return out

    def e_Starred(self, n, st):
        return [(c, self.new(c, ("star", self.snap(c, r)))) for c, r in self.ev(n.value, st)]

    def seq(self, nodes, st):
        acc = [(st, [])]
        for x in nodes:
            acc = [(c2, rs + [(r, isinstance(x, ast.Starred))]) for c, rs in acc
                   for c2, r in self.ev(x.value if isinstance(x, ast.Starred) else x, c)]
        return acc

    def e_List(self, n, st, tag="list"):
        out = []
        for c, rs in self.seq(n.elts, st):
            if any(s for _, s in rs):
                parts, cur = [], []
                flat = True
                for r, s in rs:
                    if s and c.store[r][0] in ("list", "tuple"):
                        cur.extend(c.store[r][1])
                    elif s:
                        if cur:
                            parts.append((tag, tuple(cur)))
                            cur = []
                        parts.append(self.snap(c, r))
                        flat = False
                    else:
                        cur.append(("ref", r))
                if cur or not parts:
                    parts.append((tag, tuple(cur)))
                t = parts[0] if len(parts) == 1 else ("listcat",) + tuple(parts)
                if len(parts) == 1 and not flat:
                    t = fn(tag, parts[0])
                out.append((c, self.new(c, t)))
            else:
                out.append((c, self.new(c, (tag, tuple(("ref", r) for r, _ in rs)))))
        return out

    def e_Tuple(self, n, st):
        return self.e_List(n, st, "tuple")

    def e_Set(self, n, st):
        out = []
        for c, rs in self.seq(n.elts, st):
            out.append((c, self.new(c, ("set", tuple(sorted((self.snap(c, r) for r, _ in rs), key=repr))))))
        return out

    def e_Dict(self, n, st):
        acc = [(st, [])]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for c, items in acc:
                if k is None:
                    for c2, r in self.ev(v, c):
                        nxt.append((c2, items + [("**", r)]))
                else:
                    for c2, kr in self.ev(k, c):
                        for c3, vr in self.ev(v, c2):
                            nxt.append((c3, items + [(kr, vr)]))
            acc = nxt
        out = []
        for c, items in acc:
            cur, parts = [], []
            for k, v in items:
                if k == "**":
                    raw = c.store[v]
                    if raw[0] == "dict":
                        for kk, vv in raw[1]:
                            cur = [x for x in cur if x[0] != kk] + [(kk, vv)]
                    else:
                        if cur:
                            parts.append(("dict", tuple(cur)))
                            cur = []
                        parts.append(self.snap(c, v))
                else:
                    kt = self.snap(c, k)
                    cur = [x for x in cur if x[0] != kt] + [(kt, ("ref", v))]
            if not parts:
                t = ("dict", tuple(cur))
            else:
                if cur:
                    parts.append(("dict", tuple(cur)))
                t = ("merge",) + tuple(parts) if len(parts) > 1 else parts[0]
            out.append((c, self.new(c, t)))
        return out

    def e_JoinedStr(self, n, st):
        acc = [(st, [])]
        for v in n.values:
            nxt = []
            for c, parts in acc:
                if isinstance(v, ast.Constant):
                    nxt.append((c, parts + [const(v.value)]))
                else:
                    for c2, r in self.ev(v.value, c):
                        nxt.append((c2, parts + [self.snap(c2, r)]))
            acc = nxt
        return [(c, self.new(c, T.cat(p))) for c, p in acc]

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_Lambda(self, n, st):
        f = Func(n, self.stack[-1].module, None, self.stack[-1].func)
        key = ("func", "lambda@%d:%d" % (n.lineno, n.col_offset))
        self.funcs[key] = (f, dict(st.env), self.stack[-1])
        return [(st, self.new(st, key))]

    def e_NamedExpr(self, n, st):
        out = []
        for c, r in self.ev(n.value, st):
            out.extend((x, r) for x in self.assign(n.target, c, r))
        return out

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        if n.value is None:
            return [(st, self.new(st, NONE))]
        out = []
        for c, r in self.ev(n.value, st):
            self.event(c, "yield", "yield", None, (self.snap(c, r),), node=n)
            out.append((c, self.new(c, NONE)))
        return out

    e_YieldFrom = e_Yield

    def e_UnaryOp(self, n, st):
        out = []
        if isinstance(n.op, ast.Not):
            return [(c, self.new(c, T.not_(t))) for c, t in self.cond_term(n.operand, st)]
        for c, r in self.ev(n.operand, st):
            t = self.snap(c, r)
            if isinstance(n.op, ast.USub):
                t = T.neg(t) if t != T.NAN else t
            elif isinstance(n.op, ast.Invert):
                t = T.not_(t)
            out.append((c, self.new(c, t)))
        return out

    def binop(self, op, a, b):
        k = type(op).__name__
        if k == "Add":
            if T.is_str(a) or T.is_str(b):
                return T.cat((a, b))
            if T.is_seq(a) or T.is_seq(b):
                if a[0] == b[0] and a[0] in ("list", "tuple"):
                    return (a[0], a[1] + b[1])
                return ("listcat", a, b)
            return T.add(a, b)
        if k == "Sub":
            if T.is_set(a) or T.is_set(b):
                return ("fn", "setdiff", (a, b), ())
            return T.sub(a, b)
        if k == "Mult":
            if T.is_seq(a) or T.is_seq(b) or T.is_str(a) or T.is_str(b):
                return ("fn", "repeat", (a, b), ())
            return T.mul(a, b)
        if k == "Div":
            return T.div(a, b)
        if k == "Pow":
            if T.is_num(b) and b[1].denominator == 1 and -4 <= b[1] <= 4:
                return T.power(a, int(b[1]))
            if T.is_num(b) and b[1] * 2 == 1:
                return fn("sqrt", a)
            return fn("pow", a, b)
        if k == "BitAnd":
            if T.is_set(a) or T.is_set(b):
                return fn("intersection", *sorted((a, b), key=repr))
            return T.and_(a, b)
        if k == "BitOr":
            if T.is_set(a) or T.is_set(b):
                return fn("union", *sorted((a, b), key=repr))
            if a[0] == "dict" and b[0] == "dict":
                d = dict(a[1]); d.update(dict(b[1]))
                return ("dict", tuple(d.items()))
            return T.or_(a, b)
        if k == "MatMult":
            return fn("matmul", a, b)
        if k == "Mod":
            if T.is_str(a):
                vals = b[1] if b[0] == "tuple" else (b,)
                pieces = a[1].split("%s") if a[0] == "const" and isinstance(a[1], str) else ()
                if len(pieces) == len(vals) + 1 and not any("%" in x for x in pieces):
                    return T.cat([x for n, y in enumerate(pieces) for x in ((const(y),) + tuple(vals[n:n + 1]))])
                return ("cat", a, b)
            if T.is_num(a) and T.is_num(b) and b[1]:
                return ("const", a[1] % b[1])
            return fn("mod", a, b)
        if k == "FloorDiv":
            if T.is_num(a) and T.is_num(b) and b[1]:
                return ("const", a[1] // b[1])
            return fn("floordiv", a, b)
        return fn(k.lower(), a, b)

    def e_BinOp(self, n, st):
        out = []
        for c, l in self.ev(n.left, st):
            for c2, r in self.ev(n.right, c):
                a, b = c2.store[l], c2.store[r]
                if not (isinstance(n.op, ast.Mod) and T.is_str(a)):
                    self.deref(c2, l, n, "arithmetic")
                    self.deref(c2, r, n, "arithmetic")
                if isinstance(n.op, ast.Add) and a[0] == b[0] and a[0] in ("list", "tuple"):
                    out.append((c2, self.new(c2, (a[0], a[1] + b[1]))))
                    continue
                if isinstance(n.op, ast.BitOr) and a[0] == "dict" and b[0] == "dict":
                    d = dict(a[1]); d.update(dict(b[1]))
                    out.append((c2, self.new(c2, ("dict", tuple(d.items())))))
                    continue
                out.append((c2, self.new(c2, self.binop(n.op, self.snap(c2, l), self.snap(c2, r)))))
        return out

    def e_Compare(self, n, st):
        acc = [(st, None, [])]
        out = []
        for c, l in self.ev(n.left, st):
            cur = [(c, l, [])]
            for op, right in zip(n.ops, n.comparators):
                nxt = []
                for c1, lr, ts in cur:
                    for c2, rr in self.ev(right, c1):
                        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                            self.deref(c2, lr, n, "comparison")
                            self.deref(c2, rr, n, "comparison")
                        elif isinstance(op, (ast.In, ast.NotIn)):
                            self.deref(c2, rr, n, "containment")
                        nxt.append((c2, rr, ts + [self.compare(c2, op, self.snap(c2, lr), self.snap(c2, rr))]))
                cur = nxt
            out.extend((c1, self.new(c1, T.and_(*ts))) for c1, _, ts in cur)
        return out

    def compare(self, st, op, a, b):
        k = type(op).__name__
        m = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}
        if k in m:
            return T.cmp(m[k], a, b)
        if k in ("Is", "IsNot"):
            if b == NONE:
                t = T.is_none(a)
            elif a == NONE:
                t = T.is_none(b)
            elif T.is_bool_const(b):
                t = T.truth(a) if b[1] else T.not_(T.truth(a))
            elif a[0] in ("enum",) or b[0] == "enum":
                t = T.cmp("==", a, b)
            else:
                t = TRUE if a == b else ("is",) + tuple(sorted((a, b), key=repr))
            return T.not_(t) if k == "IsNot" else t
        t = self.in_(a, b)
        return T.not_(t) if k == "NotIn" else t

    def in_(self, a, b):
        if b[0] in ("tuple", "list", "set"):
            return T.or_(*[T.cmp("==", a, x) for x in b[1]]) if b[1] else FALSE
        while b[0] == "fn" and b[1] in ("set", "list", "tuple", "sorted", "frozenset", "keys") and b[2]:
            b = b[2][0]
        if b[0] == "dict" and all(T.is_const(k) for k, _ in b[1]):
            return T.or_(*[T.cmp("==", a, k) for k, _ in b[1]]) if b[1] else FALSE
        return ("in", a, b)

    def e_BoolOp(self, n, st):
        # value of a and/or chain
        isand = isinstance(n.op, ast.And)
        acc = [(st, [])]
        effect = False
        probe = st.copy()
        n0 = len(probe.events)
        for v in n.values[1:]:
            outs = self.ev(v, probe)
            if len(outs) > 1 or any(len([e for e in c.events[n0:] if e.kind != "log"]) for c, _ in outs):
                effect = True
                break
            if outs:
                probe = outs[0][0]
        if effect:
            out = []
            cur = [st]
            for i, v in enumerate(n.values):
                nxt = []
                last = i == len(n.values) - 1
                for c in cur:
                    for c2, r in self.ev(v, c):
                        if last:
                            out.append((c2, r))
                            continue
                        for c3, b in self.fork(c2, T.truth(self.snap(c2, r)), n):
                            if b != isand:
                                out.append((c3, r))
                            else:
                                nxt.append(c3)
                cur = nxt
            return out
        for v in n.values:
            acc = [(c2, rs + [r]) for c, rs in acc for c2, r in self.ev(v, c)]
        out = []
        for c, rs in acc:
            ts = [self.snap(c, r) for r in rs]
            if all(is_boolish(t) for t in ts):
                out.append((c, self.new(c, T.and_(*ts) if isand else T.or_(*ts))))
                continue
            # x or default: pick by what is known, else keep both as possible values
            r = rs[0]
            cur = [(c, rs[0])]
            for nxt_r in rs[1:]:
                new = []
                for x, r0 in cur:
                    t = T.truth(self.snap(x, r0))
                    d = self.decide(x, t)
                    if d is None:
                        tt, dd = self.snap(x, r0), self.snap(x, nxt_r)
                        nr = self.new(x, ("boolop", "and" if isand else "or", tt, dd), alias=(r0, nxt_r))
                        if r0 in self.objcls and nxt_r in self.objcls:
                            pass
                        new.append((x, nr))
                    elif d == isand:
                        new.append((x, nxt_r))
                    else:
                        new.append((x, r0))
                cur = new
            out.extend(cur)
        return out

    def e_IfExp(self, n, st):
        if self.comp_mode:
            out = []
            for c, t in self.cond_term(n.test, st):
                d = self.decide(c, t)
                if d is not None:
                    out.extend(self.ev(n.body if d else n.orelse, c))
                    continue
                for c2, a in self.ev(n.body, c):
                    for c3, b in self.ev(n.orelse, c2):
                        ta, tb = self.snap(c3, a), self.snap(c3, b)
                        out.append((c3, self.new(c3, ta if ta == tb else ("ite", t, ta, tb), alias=(a, b))))
            return out
        out = []
        for c, v in self.branch(n.test, st):
            out.extend(self.ev(n.body if v else n.orelse, c))
        return out

    def e_Slice(self, n, st):
        acc = [(st, [])]
        for x in (n.lower, n.upper, n.step):
            if x is None:
                acc = [(c, ts + [NONE]) for c, ts in acc]
            else:
                acc = [(c2, ts + [self.snap(c2, r)]) for c, ts in acc for c2, r in self.ev(x, c)]
        return [(c, self.new(c, ("slice",) + tuple(ts))) for c, ts in acc]

    def ev_index(self, node, st):
        if type(node).__name__ == "Index":
            node = node.value
        return self.ev(node, st)

    def e_Subscript(self, n, st):
        out = []
        for c, b in self.ev(n.value, st):
            for c2, i in self.ev_index(n.slice, c):
                out.extend(self.subscript(c2, b, i, n))
        return out

    def subscript(self, st, b, i, node):
        raw = st.store[b]
        self.deref(st, b, node, "element")
        it = self.snap(st, i)
        if raw[0] in ("list", "tuple"):
            if T.is_num(it) and it[1].denominator == 1 and -len(raw[1]) <= int(it[1]) < len(raw[1]):
                x = raw[1][int(it[1])]
                return [(st, x[1] if x[0] == "ref" else self.new(st, x))]
            if it[0] == "slice" and all(x == NONE or T.is_num(x) for x in it[1:]):
                sl = slice(*[None if x == NONE else int(x[1]) for x in it[1:]])
                return [(st, self.new(st, (raw[0], raw[1][sl])))]
        if raw[0] == "dict":
            for k, v in raw[1]:
                if self.resolve_refs(st, k) == it:
                    return [(st, v[1] if v[0] == "ref" else self.new(st, v))]
        bt = self.snap(st, b)
        if raw[0] == "enumcls" and T.is_const(it):
            return [(st, self.new(st, self.enum_member(raw, it[1])))]
        if bt[0] == "fn" and bt[1] in ("loc", "at") and len(bt[2]) == 1:
            x = bt[2][0]
            if it[0] == "tuple" and len(it[1]) == 2:
                rows, cols = it[1]
                if rows == ("slice", NONE, NONE, NONE):
                    return [(st, self.new(st, item(x, cols), alias=self.alias.get(b, ())))]
                return [(st, self.new(st, item(item(x, cols), rows)))]
            if it[0] in ("and", "or", "not", "<0", "<=0", "==0") or (it[0] == "fn" and it[1] in MIXED_FN):
                return [(st, self.new(st, ("select", x, it)))]
            if it[0] == "elem" and it[1] == ("attr", x, "index"):
                return [(st, self.new(st, ("elemrow", x)))]
            return [(st, self.new(st, item(x, it), alias=self.alias.get(b, ()) if T.is_const(it) else ()))]
        if bt[0] == "fn" and bt[1] in ("iloc", "iat") and len(bt[2]) == 1:
            x = bt[2][0]
            if it[0] == "tuple" and len(it[1]) == 2:
                return [(st, self.new(st, ("iloc2", x) + it[1]))]
            if it[0] == "index":
                return [(st, self.new(st, ("elemrow", x)))]
            return [(st, self.new(st, ("iloc", x, it)))]
        if bt[0] == "iloc" and T.is_const(it):
            # row then column
            return [(st, self.new(st, ("iloc", item(bt[1], it), bt[2])))]
        if is_boolish(it) and it[0] not in ("in",) and not T.is_bool_const(it):
            return [(st, self.new(st, ("select", bt, it)))]
        viewlike = it[0] in ("slice", "elem", "index", "key") or T.is_const(it) or it[0] in ("item", "attr")
        key = ("#item", it)
        if T.is_const(it) or it[0] in ("elem", "key", "index"):
            if (b, key) in st.heap and st.heap[(b, key)] in st.store:
                old = st.heap[(b, key)]
                if self.item_base.get(old) == bt:
                    return [(st, old)]
            r = self.new(st, item(bt, it), alias=(b,))
            st.heap[(b, key)] = r
            self.item_base[r] = bt
            return [(st, r)]
        return [(st, self.new(st, item(bt, it), alias=(b,) if viewlike and it[0] == "slice" else ()))]

    item_base = {}

    # comprehensions
    def comp(self, n, st, kind, elt_nodes):
        out = []
        outer_env = st.env
        loops0 = st.loops

        def rec(i, c, src, conds):
            if i == len(n.generators):
                res = [(c, [])]
                for e in elt_nodes:
                    res = [(c3, ts + [self.snap(c3, r)]) for c2, ts in res for c3, r in self.ev(e, c2)]
                for c2, ts in res:
                    elt = ts[0] if len(ts) == 1 else ("tuple", tuple(ts))
                    yield c2, elt, src, conds
                return
            g = n.generators[i]
            for c2, units, elem, s2, cnd in self.spec(g.iter, c):
                if units is not None:
                    lst = ("list", tuple(self.snap(c2, u) for u in units))
                    elem, s2 = ("t", ("elem", lst), None), (lst,)
                c2.loops = c2.loops + (tuple(s2),)
                for x in self.bind_struct(g.target, elem, c2):
                    acc = [(x, tuple(cnd))]
                    for cond in g.ifs:
                        acc = [(z, cs + (t,)) for y, cs in acc for z, t in self.cond_term(cond, y)]
                    for y, cs in acc:
                        cs = tuple(t for t in cs if t != TRUE)
                        yield from rec(i + 1, y, src + tuple(s2), conds + cs)

        # literal sources without conditions are written out
        if len(n.generators) == 1 and self.unroll and not (n.generators[0].ifs and self.comp_mode):
            sp = self.spec(n.generators[0].iter, st.copy())
            if len(sp) == 1 and sp[0][1] is not None and (not n.generators[0].ifs or len(sp[0][1]) <= 5):
                outs = []
                for c, units, _, _, _ in self.spec(n.generators[0].iter, st):
                    saved = c.env
                    c.env = dict(c.env)
                    acc = [(c, [])]
                    for u in units:
                        nxt = []
                        for c1, vals in acc:
                            for x in self.assign(n.generators[0].target, c1, u, quiet=True):
                                for cond in n.generators[0].ifs[:1]:
                                    node = cond if len(n.generators[0].ifs) == 1 else ast.copy_location(
                                        ast.BoolOp(ast.And(), list(n.generators[0].ifs)), cond)
                                    branched = self.branch(node, x)
                                    nxt.extend((y, vals) for y, v in branched if not v)
                                    keep = [y for y, v in branched if v]
                                if not n.generators[0].ifs:
                                    keep = [x]
                                res = [(y, []) for y in keep]
                                for e in elt_nodes:
                                    res = [(c3, rs + [r]) for c2, rs in res for c3, r in self.ev(e, c2)]
                                for c2, rs in res:
                                    nxt.append((c2, vals + [rs]))
                        acc = nxt
                    for c1, vals in acc:
                        c1.env = dict(saved)
                        if kind == "dict":
                            t = ("dict", tuple((self.snap(c1, v[0]), ("ref", v[1])) for v in vals))
                        elif kind == "set":
                            t = ("set", tuple(self.snap(c1, v[0]) for v in vals))
                        else:
                            t = ("list", tuple(("ref", v[0]) for v in vals))
                        outs.append((c1, self.new(c1, t)))
                return outs
        self.comp_mode += 1
        try:
            start = st
            env0 = dict(st.env)
            for c, elt, src, conds in rec(0, start, (), ()):
                c.env = dict(env0)
                c.loops = loops0
                if kind != "dict" and elt == ("elem", src[-1]) and len(src) == 1 and not conds:
                    t = fn("list", src[0]) if kind == "list" else (fn("set", src[0]) if kind == "set" else src[0])
                elif FALSE in conds:
                    t = ("dict" if kind == "dict" else "list", ())
                    if kind == "set":
                        t = ("set", ())
                else:
                    t = ("comp", kind, elt, src, conds)
                    if kind == "set":
                        t = fn("set", ("comp", "gen", elt, src, conds))
                out.append((c, self.new(c, t)))
        finally:
            self.comp_mode -= 1
        return out

    def e_ListComp(self, n, st):
        return self.comp(n, st, "list", [n.elt])

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, "gen", [n.elt])

    def e_SetComp(self, n, st):
        return self.comp(n, st, "set", [n.elt])

    def e_DictComp(self, n, st):
        return self.comp(n, st, "dict", [n.key, n.value])

    # ------------------------------------------------------------------ calls
    def deref(self, st, r, node, what):
        """record that the value of r is used as an object although it is None"""
        if not self.nones:
            return
        t = st.store[r]
        if t == NONE or t[0] in ("attr", "param", "item", "mcall", "call") and any(
                f.term[0] == "isnone" and f.val and f.term[1] == t for f in st.facts):
            self.event(st, "none", what, t, node=node)

    def event(self, st, kind, name, recv=None, args=(), kw=(), node=None, res=None, recv_ref=None, arg_refs=(),
              kw_refs=None, extra=None):
        e = Event(kind, name, recv, args, kw, self.loc(node) if node is not None else None, st.loops, len(st.facts), res,
                  recv_ref, arg_refs, kw_refs, extra, tuple(f.func.qual for f in self.stack))
        st.events.append(e)
        return e

    def ev_args(self, n, st):
        """list of (state, [positional refs], {keyword: ref}); starred/double starred known containers are expanded"""
        acc = [(st, [], {})]
        for a in n.args:
            nxt = []
            for c, pos, kw in acc:
                if isinstance(a, ast.Starred):
                    for c2, r in self.ev(a.value, c):
                        self.deref(c2, r, n, "arguments")
                        raw = c2.store[r]
                        if raw[0] in ("list", "tuple"):
                            nxt.append((c2, pos + [x[1] if x[0] == "ref" else self.new(c2, x) for x in raw[1]], dict(kw)))
                        else:
                            nxt.append((c2, pos + [self.new(c2, ("star", self.snap(c2, r)), alias=(r,))], dict(kw)))
                else:
                    for c2, r in self.ev(a, c):
                        nxt.append((c2, pos + [r], dict(kw)))
            acc = nxt
        for k in n.keywords:
            nxt = []
            for c, pos, kw in acc:
                for c2, r in self.ev(k.value, c):
                    kw2 = dict(kw)
                    if k.arg is None:
                        self.deref(c2, r, n, "keywords")
                        raw = c2.store[r]
                        if raw[0] == "dict":
                            for kk, vv in raw[1]:
                                kk = self.resolve_refs(c2, kk)
                                if T.is_const(kk):
                                    kw2[kk[1]] = vv[1] if vv[0] == "ref" else self.new(c2, vv)
                        else:
                            t = self.snap(c2, r)
                            while t[0] == "merge" and len(t) > 2 and t[-1][0] == "dict" and all(T.is_const(x) for x, y in t[-1][1]):
                                for kk, vv in t[-1][1]:
                                    kw2.setdefault(kk[1], self.new(c2, vv))
                                t = t[1] if len(t) == 3 else t[:-1]
                                r = None
                            if t[0] == "fn" and t[1] == "dict" and len(t[2]) == 1 and not t[3]:
                                t, r = t[2][0], None
                            if "**" in kw2:
                                t, r = ("merge", self.snap(c2, kw2["**"]), t), None
                            kw2["**"] = self.new(c2, t) if r is None else r
                    else:
                        kw2[k.arg] = r
                    nxt.append((c2, pos, kw2))
            acc = nxt
        return acc

    def e_Call(self, n, st, stmt=False):
        f = n.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == "super":
            return self.super_call(n, f.attr, st)
        if isinstance(f, ast.Name) and f.id not in st.env:
            r = self.prog.lookup(self.stack[-1].module, f.id)
            if r is None:
                return self.builtin(n, f.id, st, stmt)
        if isinstance(f, ast.Attribute):
            # logger calls
            if f.attr in LOG and is_logger(f.value):
                return self.log_call(n, st)
            out = []
            for c, b in self.ev(f.value, st):
                bt = c.store[b]
                if bt[0] in ("glob", "builtin") and bt[0] == "glob":
                    for c2, fr in self.global_(c, bt[1] + "." + f.attr):
                        out.extend(self.call_value(n, c2, fr, stmt))
                    continue
                if bt[0] == "cls":
                    out.extend(self.class_method_call(n, c, bt[1], f.attr, b))
                    continue
                out.extend(self.method_call(n, c, b, f.attr, stmt))
            return out
        out = []
        for c, fr in self.ev(f, st):
            out.extend(self.call_value(n, c, fr, stmt))
        return out

    def log_call(self, n, st):
        self.event(st, "log", n.func.attr if isinstance(n.func, ast.Attribute) else "print", node=n)
        return [(st, self.new(st, NONE))]

    def super_call(self, n, name, st):
        fr = self.stack[-1]
        out = []
        for c, args, kw in self.ev_args(n, st):
            m = None
            if fr.objcls is not None and fr.cls is not None:
                after = next((k for k in self.prog.mro(fr.objcls) if k.name == fr.cls.name), None)
                m = self.prog.method(fr.objcls, name, after=after)
            if m is None:
                out.append((c, self.opaque_call(c, "super." + name, ("self",), args, kw, n, fr.self_ref)))
                continue
            if (m.cls.name + "." + name) in self.opaque or len(self.stack) >= self.maxdepth:
                out.append((c, self.opaque_call(c, "super." + name, ("self",), args, kw, n, fr.self_ref)))
                continue
            out.extend(self.inline(c, m, fr.self_ref, args, kw, n))
        return out

    def class_method_call(self, n, st, cname, name, b):
        cls = self.prog.classes.get(cname)
        m = self.prog.method(cls, name) if cls else None
        out = []
        for c, args, kw in self.ev_args(n, st):
            if cls and name in [x for k in self.prog.mro(cls) for x in k.inner]:
                k = next(k for k in self.prog.mro(cls) if name in k.inner)
                out.append((c, self.enum_call(c, ("enumcls", k.name, name), args)))
                continue
            if m is None:
                out.append((c, self.opaque_call(c, cname + "." + name, None, args, kw, n)))
                continue
            if m.kind == "classmethod":
                out.extend(self.inline(c, m, b, args, kw, n))
            elif m.kind == "staticmethod":
                out.extend(self.inline(c, m, None, args, kw, n))
            elif args:
                out.extend(self.inline(c, m, args[0], args[1:], kw, n))
        return out

    def enum_call(self, c, base, args):
        t = self.snap(c, args[0]) if args else NONE
        if T.is_const(t):
            cc = self.prog.classes.get(base[1])
            for s in cc.inner[base[2]].body:
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and const(s.value.value) == t:
                    return self.new(c, ("enum", base[2], s.targets[0].id, t))
        if t[0] == "attr" and t[2] == "value":
            return self.new(c, t[1])
        return self.new(c, ("fn", "enum:" + base[2], (t,), ()))

    def call_value(self, n, st, fr, stmt):
        t = st.store[fr]
        self.deref(st, fr, n, "call")
        out = []
        if t in self.funcs:
            func, env, frame = self.funcs[t]
            for c, args, kw in self.ev_args(n, st):
                out.extend(self.inline(c, func, None, args, kw, n, closure=env, cframe=frame))
            return out
        if t[0] == "cls":
            for c, args, kw in self.ev_args(n, st):
                out.extend(self.construct(c, t[1], args, kw, n))
            return out
        if t[0] == "enumcls":
            for c, args, kw in self.ev_args(n, st):
                out.append((c, self.enum_call(c, t, args)))
            return out
        if t[0] == "bound":
            for c, args, kw in self.ev_args(n, st):
                cls = None
                for r, k in self.objcls.items():
                    if c.store.get(r) == t[1] or self.snap(c, r) == t[1]:
                        cls = k
                        m = self.prog.method(cls, t[2])
                        if m and self.inlinable(m, cls):
                            out.extend(self.inline(c, m, r, args, kw, n))
                            break
                else:
                    out.append((c, self.opaque_call(c, t[2], t[1], args, kw, n)))
                    continue
                if not (cls and self.prog.method(cls, t[2]) and self.inlinable(self.prog.method(cls, t[2]), cls)):
                    out.append((c, self.opaque_call(c, t[2], t[1], args, kw, n)))
            return out
        if t[0] == "gfunc":
            r = self.prog.resolve(t[1])
            f = r[1]
            for c, args, kw in self.ev_args(n, st):
                if self.inlinable(f, None):
                    out.extend(self.inline(c, f, None, args, kw, n))
                else:
                    out.append((c, self.opaque_call(c, f.name, None, args, kw, n)))
            return out
        if t[0] == "glob":
            for c, args, kw in self.ev_args(n, st):
                out.extend(self.ext_call(c, t[1], args, kw, n, stmt))
            return out
        if t[0] == "builtin":
            return self.builtin(n, t[1], st, stmt)
        for c, args, kw in self.ev_args(n, st):
            t = self.snap(c, fr)
            if t[0] == "attr" and t[1][0] == "attr":
                # a bound method of an object that is not ours, held in a variable
                out.append((c, self.opaque_call(c, t[2], t[1], args, kw, n)))
            else:
                out.append((c, self.opaque_call(c, "()", t, args, kw, n, fr)))
        return out

    def inlinable(self, f, cls):
        if f.name in self.opaque or f.qual in self.opaque or (cls and (cls.name + "." + f.name) in self.opaque):
            return False
        if f.is_generator and not f.contextmanager:
            return False
        if len(self.stack) >= self.maxdepth:
            return False
        if sum(1 for x in self.stack if x.func.node is f.node) >= 1:
            return False
        return True

    def bind(self, st, f, self_ref, args, kw):
        pos, kwonly, defaults, va, kwa = f.params()
        env = {}
        args = list(args)
        if self_ref is not None and f.kind != "staticmethod" and f.cls is not None:
            args = [self_ref] + args
        kw = dict(kw)
        rest = kw.pop("**", None)
        star = next((i for i, a in enumerate(args) if st.store[a][0] == "star"), None)
        tail = None
        if star is not None:
            tail = args[star]
            args = args[:star]
        for name, a in zip(pos, args):
            env[name] = a
        extra = args[len(pos):]
        for name in pos[len(args):] + kwonly:
            if name in kw:
                env[name] = kw.pop(name)
            elif tail is not None and name in pos:
                i = pos.index(name)
                env[name] = self.new(st, item(st.store[tail][1], const(i - (len(args)))))
            elif rest is not None and (name not in defaults):
                env[name] = self.new(st, item(self.snap(st, rest), const(name)))
            elif name in defaults:
                save = st.env
                st.env = {}
                self.stack.append(Frame(f, f.cls, self_ref, self.objcls.get(self_ref)))
                try:
                    r = self.ev(defaults[name], st)
                finally:
                    self.stack.pop()
                st.env = save
                env[name] = r[0][1] if r else self.new(st, ("unk", "default"))
                if rest is not None:
                    env[name] = self.new(st, ("fn", "getdefault", (self.snap(st, rest), const(name), self.snap(st, env[name])), ()))
            else:
                env[name] = self.new(st, ("missing", name))
        if va:
            env[va] = self.new(st, ("tuple", tuple(("ref", a) for a in extra)))
        if kwa:
            d = ("dict", tuple((const(k), ("ref", v)) for k, v in kw.items()))
            if rest is not None:
                if kw:
                    d = ("merge", d, self.snap(st, rest))
                    env[kwa] = self.new(st, d)
                else:
                    env[kwa] = rest
            else:
                env[kwa] = self.new(st, d)
        return env

    def inline(self, st, f, self_ref, args, kw, node, closure=None, cframe=None):
        if f.is_generator and not f.contextmanager:
            return [(st, self.opaque_call(st, f.name, self.snap(st, self_ref) if self_ref else None, args, kw, node, self_ref))]
        env = self.bind(st, f, self_ref, args, kw)
        objcls = self.objcls.get(self_ref) if self_ref is not None else None
        if closure is not None:
            base = dict(closure)
            if cframe is self.stack[-1]:
                base.update(st.env)
            base.update(env)
            env = base
        caller_env = st.env
        st.env = env
        frame = Frame(f, f.cls, self_ref, objcls, self.stack[-1])
        if closure is not None:
            frame.cls, frame.self_ref, frame.objcls = cframe.cls, cframe.self_ref, cframe.objcls
        self.stack.append(frame)
        self.stats["inlined"] += 1
        self.stats["functions"].add((f.module.rel, f.qual))
        save_comp = self.comp_mode
        if f.name != "<lambda>":
            self.comp_mode = 0
        try:
            body = f.node.body
            if not isinstance(body, list):
                outs = [("ret", c, r) for c, r in self.ev(body, st)]
            else:
                outs = self.block(body, st)
        finally:
            self.stack.pop()
            self.comp_mode = save_comp
        res = []
        for kind, c, val in outs:
            c.env = dict(caller_env)
            if kind == "raise":
                self.raised.append((c, val))
            elif kind == "loop":
                pass
            else:
                res.append((c, val if val is not None else self.new(c, NONE)))
        if len(res) + len(self.raised) > MAXPATHS:
            raise TooManyPaths()
        return res

    def construct(self, st, cname, args, kw, node):
        cls = self.prog.classes.get(cname)
        targs = tuple(self.snap(st, a) for a in args)
        tkw = tuple(sorted((k, self.snap(st, v)) for k, v in kw.items()))
        if cls and any("Exception" in str(b) or "Error" in str(b) for b in self.prog.ext_bases(cls)):
            return [(st, self.new(st, ("exc", cname)))]
        t = ("new", cname, targs, tkw, sum(1 for e in st.events if e.kind == "new" and e.name == cname))
        r = self.new(st, t, alias=())
        self.event(st, "new", cname, None, targs, tkw, node=node, res=t, arg_refs=args, kw_refs=kw, recv_ref=r)
        self.maybe_raise(st, "new " + cname, node)
        return [(st, r)]

    def maybe_raise(self, st, what, node):
        if self.exc == "all" or (self.exc and self.try_depth > 0):
            hit = True if self.exc_filter is None else self.exc_filter(what)
            if hit:
                c = st.copy()
                self.raised.append((c, self.new(c, ("exc", hit if isinstance(hit, str) else "?", what))))

    def opaque_call(self, st, name, recv, args, kw, node, recv_ref=None):
        targs = tuple(self.snap(st, a) for a in args)
        tkw = {k: self.snap(st, v) for k, v in kw.items()}
        self.stats["calls"] += 1
        self.maybe_raise(st, name, node)
        key = (name, recv, targs, tuple(sorted(tkw.items())))
        n = sum(1 for e in st.events if e.kind == "call" and e.extra == key)
        if name in self.pure_calls:
            n = 0
        if recv is not None:
            t = ("mcall", recv, name, targs, tuple(sorted(tkw.items())), n)
        else:
            t = ("call", name, targs, tuple(sorted(tkw.items())), n)
        e = self.event(st, "call", name, recv, targs, tkw, node=node, res=t, recv_ref=recv_ref, arg_refs=args, kw_refs=kw,
                       extra=key)
        return self.new(st, t)

    def method_call(self, n, st, b, name, stmt):
        cls = self.objcls.get(b)
        self.deref(st, b, n, "method " + name)
        out = []
        for c, args, kw in self.ev_args(n, st):
            if cls is not None:
                m = self.prog.method(cls, name)
                if m is not None:
                    if self.inlinable(m, cls):
                        out.extend(self.inline(c, m, b, args, kw, n))
                    else:
                        out.append((c, self.opaque_call(c, name, self.snap(c, b), args, kw, n, b)))
                    continue
                for k in self.prog.mro(cls):
                    if name in k.inner:
                        out.append((c, self.enum_call(c, ("enumcls", k.name, name), args)))
                        break
                else:
                    # attribute holding a callable
                    for c2, fr in self.getattr_(c, b, name, n):
                        t = c2.store[fr]
                        if t in self.funcs:
                            func, env, frame = self.funcs[t]
                            out.extend(self.inline(c2, func, None, args, kw, n, closure=env, cframe=frame))
                        else:
                            out.append((c2, self.opaque_call(c2, name, self.snap(c2, b), args, kw, n, b)))
                continue
            out.extend(self.value_method(c, b, name, args, kw, n, stmt))
        return out

    def foreign_target(self, name):
        """a method that exists once in the package and is not part of its known interface (an extracted helper)"""
        if name not in self.inline_foreign:
            return None
        found = [c.methods[name] for c in self.prog.classes.values() if name in c.methods]
        return found[0] if len(found) == 1 else None

    def value_method(self, st, b, name, args, kw, n, stmt):
        bt = self.snap(st, b)
        raw = st.store[b]
        ta = [self.snap(st, a) for a in args]
        tk = {k: self.snap(st, v) for k, v in kw.items()}
        if tk.get("inplace") == TRUE and name in PURE_METHODS:
            k2 = {k: v for k, v in tk.items() if k != "inplace"}
            t = self.pure_method(st, bt, name, ta, k2)
            self.mutate(st, b, name, t if t is not None else ("mut", bt, name), ta, n)
            return [(st, self.new(st, NONE))]
        ft = self.foreign_target(name)
        if ft is not None and self.inlinable(ft, ft.cls):
            return self.inline(st, ft, b, args, kw, n)
        if name in MUTATORS and not (name == "append" and not stmt and raw[0] not in ("list", "listcat", "comp", "append")) \
                and not (name in ("insert", "remove", "pop", "clear") and False):
            if name == "append" and stmt and len(args) == 1:
                if raw[0] == "list":
                    newt = ("list", raw[1] + (("ref", args[0]),))
                else:
                    newt = ("append", bt, ta[0])
                self.mutate(st, b, "append", newt, ta, n)
                return [(st, self.new(st, NONE))]
            if name == "extend" and args:
                newt = self.extend_term(st, raw if raw[0] == "list" else bt, ta[0], args[0])
                self.mutate(st, b, "extend", newt, ta, n)
                return [(st, self.new(st, NONE))]
            if name == "sort":
                if "key" in kw:
                    tk["key"] = self.key_term(st, kw["key"], bt, n)
                self.mutate(st, b, "sort", fn("sorted", bt, **{k: v for k, v in tk.items()}), ta, n)
                return [(st, self.new(st, NONE))]
            if name == "pop":
                if raw[0] == "dict" and ta and T.is_const(ta[0]):
                    res = next((v for k, v in raw[1] if self.resolve_refs(st, k) == ta[0]), None)
                    newt = ("dict", tuple((k, v) for k, v in raw[1] if self.resolve_refs(st, k) != ta[0]))
                    self.mutate(st, b, "pop", newt, ta, n)
                    if res is not None:
                        return [(st, res[1] if res[0] == "ref" else self.new(st, res))]
                    return [(st, args[1] if len(args) > 1 else self.new(st, item(bt, ta[0])))]
                idx = ta[0] if ta else const(-1)
                res = item(bt, idx) if not (len(ta) > 1) else fn("getdefault", bt, *ta)
                self.mutate(st, b, "pop", ("popped", bt, idx), ta, n)
                return [(st, self.new(st, res))]
            if name == "setdefault":
                self.mutate(st, b, "setdefault", ("setdefault", bt) + tuple(ta), ta, n)
                return [(st, self.new(st, ("fn", "getdefault", (bt,) + tuple(ta), ()), alias=(b,)))]
            if name == "__setitem__" and len(args) == 2:
                return [(x, self.new(x, NONE)) for x in self.setitem(st, b, args[0], args[1], n)]
            self.mutate(st, b, name, ("mut", bt, name) + tuple(ta), ta, n)
            return [(st, self.new(st, NONE))]
        if name == "update" and raw[0] == "dict":
            items = dict(raw[1])
            if args and st.store[args[0]][0] == "dict":
                items.update(dict(st.store[args[0]][1]))
            elif args:
                newt = ("merge", bt, ta[0])
                if tk:
                    newt += (("dict", tuple((const(k), v) for k, v in tk.items())),)
                self.mutate(st, b, "update", newt, ta, n)
                return [(st, self.new(st, NONE))]
            for k, v in kw.items():
                items[const(k)] = ("ref", v)
            self.mutate(st, b, "update", ("dict", tuple(items.items())), ta, n)
            return [(st, self.new(st, NONE))]
        if name == "update" and stmt and (bt[0] in ("merge", "dictof", "comp") or T.is_set(bt) or
                                          bt[0] == "fn" and bt[1] in ("dict", "OrderedDict", "collections.OrderedDict")):
            newt = fn("union", bt, *ta) if T.is_set(bt) else ("merge", bt) + tuple(ta)
            if tk and newt[0] == "merge":
                newt += (("dict", tuple((const(k), v) for k, v in tk.items())),)
            self.mutate(st, b, "update", newt, ta, n)
            return [(st, self.new(st, NONE))]
        if name == "add" and (T.is_set(bt) or bt[0] == "set") and stmt:
            self.mutate(st, b, "add", fn("union", bt, ("set", tuple(ta))), ta, n)
            return [(st, self.new(st, NONE))]
        t = None
        waits = name == "join" and (not args or tk or T.is_num(ta[0]))        # of a thread, not of a string
        if (name in PURE_METHODS or name == "append") and not waits:
            t = self.pure_method(st, bt, name, ta, tk)
        if t is not None:
            if name == "copy":
                return [(st, self.new(st, t))]
            al = (b,) if name in VIEW_METHODS else ()
            if name == "get" and raw[0] == "dict" and ta:
                for k, v in raw[1]:
                    if self.resolve_refs(st, k) == ta[0]:
                        return [(st, v[1] if v[0] == "ref" else self.new(st, v))]
            return [(st, self.new(st, t, alias=al))]
        return [(st, self.opaque_call(st, name, bt, args, kw, n, b))]

    def extend_term(self, st, cur, val, r):
        raw = st.store.get(r, val)
        if cur[0] == "list" and raw[0] in ("list", "tuple"):
            return ("list", cur[1] + raw[1])
        if cur[0] == "list" and not cur[1]:
            return val
        return ("listcat", cur, val)

    def pure_method(self, st, b, name, a, k):
        k = {x: y for x, y in k.items() if not (x in ("inplace", "copy", "deep", "sort"))}
        if name in ("isna", "isnull"):
            return fn("isna", b)
        if name in ("notna", "notnull"):
            return T.not_(fn("isna", b))
        if name == "any":
            return T.any_(b)
        if name == "all":
            return T.all_(b)
        if name == "abs":
            return fn("abs", b)
        if name == "fillna" and (a or "value" in k):
            v = a[0] if a else k["value"]
            return ("fn", "fillna", (b, v), ())
        if name in ("sub", "subtract") and len(a) == 1 and not k:
            return T.sub(b, a[0])
        if name == "rsub" and len(a) == 1 and not k:
            return T.sub(a[0], b)
        if name in ("add", "radd") and len(a) == 1 and not k:
            return T.add(b, a[0])
        if name in ("add", "sub", "subtract") and len(a) == 1 and "fill_value" in k:
            other = a[0] if name == "add" else T.neg(a[0])
            return ("fn", "addfill", tuple(sorted((b, other), key=repr)), (("fill", k["fill_value"]),))
        if name in ("mul", "multiply") and len(a) == 1 and not k:
            return T.mul(b, a[0])
        if name in ("div", "divide", "truediv") and len(a) == 1 and not k:
            return T.div(b, a[0])
        if name in ("lt", "le", "gt", "ge", "eq", "ne") and len(a) == 1 and not k:
            return T.cmp({"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}[name], b, a[0])
        if name == "pow" and len(a) == 1 and T.is_num(a[0]) and a[0][1].denominator == 1:
            return T.power(b, int(a[0][1]))
        if name == "copy":
            return b
        if name == "reindex" and len(a) + len(k) == 1 and (a or set(k) <= {"index", "labels"}) and self.labelled(b):
            return T.item(b, a[0] if a else list(k.values())[0])
        if name == "issubset" and len(a) == 1:
            return T.subset(b, a[0])
        if name == "issuperset" and len(a) == 1:
            return T.subset(a[0], b)
        if name == "difference" and len(a) == 1:
            return ("fn", "setdiff", (b, a[0]), ())
        if name in ("intersection", "union") and len(a) == 1 and self.labels:
            return ("fn", name, (_strip(b), _strip(a[0])), ())
        if name == "intersection" and len(a) == 1:
            return ("fn", "intersection", tuple(sorted((_strip(b), _strip(a[0])), key=repr)), ())
        if name == "union" and len(a) == 1:
            return ("fn", "union", tuple(sorted((_strip(b), _strip(a[0])), key=repr)), ())
        if name == "isin" and len(a) == 1:
            return ("fn", "isin", (b, _strip(a[0])), ())
        if name in ("to_numpy",):
            return fn("values", b)
        if name == "values" and not a:
            return ("vals", b)
        if name in ("tolist", "to_list"):
            return fn("list", b)
        if name == "keys":
            return ("fn", "keys", (b,), ())
        if name == "sum" and not a and not k and is_boolish(b):
            return fn("count_true", b)
        if name == "sum" and not a and not k:
            return ("fn", "sum", (b,), ())
        if name == "__contains__" and len(a) == 1:
            return self.in_(a[0], b)
        if name == "__getitem__" and len(a) == 1:
            return item(b, a[0])
        if name == "get" and len(a) >= 1:
            return ("fn", "get", (b,) + tuple(a), tuple(sorted(k.items())))
        if name == "format":
            done = T.formatted(b, a, k)
            if done is not None:
                return done
            return ("cat", b) + tuple(a) + tuple(v for _, v in sorted(k.items()))
        if name == "dot" and len(a) == 1:
            return fn("matmul", b, a[0])
        if name == "transpose" and not a:
            return fn("T", b)
        if name == "item" and not a:
            return b
        if name == "append":
            return ("fn", "concat2", (b,) + tuple(a), tuple(sorted(k.items())))
        if name == "__len__":
            return fn("len", b)
        return ("fn", "." + name, (b,) + tuple(a), tuple(sorted(k.items())))

    def builtin(self, n, name, st, stmt):
        if name == "print":
            return self.log_call(n, st)
        if name == "getattr" and len(n.args) in (2, 3) and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
            out = []
            for c, b in self.ev(n.args[0], st):
                if len(n.args) == 2:
                    out.extend(self.getattr_(c, b, n.args[1].value, n))
                else:
                    out.append((c, self.new(c, ("fn", "getattrdefault", (self.snap(c, b), const(n.args[1].value)), ()))))
            return out
        if name == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
            out = []
            for c, b in self.ev(n.args[0], st):
                for c2, r in self.ev(n.args[2], c):
                    out.extend((x, self.new(x, NONE)) for x in self.setattr_(c2, b, n.args[1].value, r, n))
            return out
        out = []
        for c, args, kw in self.ev_args(n, st):
            ta = [self.snap(c, a) for a in args]
            tk = {k: self.snap(c, v) for k, v in kw.items()}
            if name in ("sorted", "min", "max") and "key" in kw and len(args) == 1:
                tk["key"] = self.key_term(c, kw["key"], ta[0], n)
            out.append((c, self.builtin_term(c, name, args, ta, kw, tk, n)))
        return out

    def builtin_term(self, c, name, args, ta, kw, tk, n):
        if self.nones and name in ("len", "abs", "sorted", "list", "tuple", "set", "iter", "sum", "any", "all", "int", "float", "enumerate",
                                   "zip", "reversed", "range", "frozenset"):
            for a in args:
                self.deref(c, a, n, name)
        if name == "len" and len(ta) == 1:
            return self.new(c, fn("len", ta[0]))
        if name == "abs" and len(ta) == 1:
            return self.new(c, fn("abs", ta[0]))
        if name in ("any", "all") and len(ta) == 1:
            return self.new(c, fn(name, ta[0]))
        if name == "bool" and len(ta) == 1:
            return self.new(c, T.truth(ta[0]))
        if name == "isinstance" and len(ta) == 2:
            return self.new(c, self.isinstance_(ta[0], ta[1]))
        if name == "dict":
            raw = c.store[args[0]] if args else ("dict", ())
            if raw[0] == "dict":
                items = dict(raw[1])
                for k, v in kw.items():
                    if k != "**":
                        items[const(k)] = ("ref", v)
                t = ("dict", tuple(items.items()))
                if "**" in kw:
                    t = ("merge", t, tk["**"])
                return self.new(c, t)
            if not kw:
                if raw[0] == "comp" and raw[2][0] == "tuple" and len(raw[2][1]) == 2:
                    return self.new(c, ("comp", "dict") + self.snap(c, args[0])[2:])
                return self.new(c, fn("dict", ta[0]))
            return self.new(c, ("merge", ta[0], ("dict", tuple((const(k), ("ref", v)) for k, v in kw.items()))))
        if name in ("list", "tuple") and len(ta) <= 1:
            if not ta:
                return self.new(c, (name, ()))
            raw = c.store[args[0]]
            if raw[0] in ("list", "tuple"):
                return self.new(c, (name, raw[1]))
            t = ta[0]
            if t[0] == "comp":
                return self.new(c, ("comp", name) + t[2:])
            if t[0] == "fn" and t[1] in ("list", "tuple"):
                return self.new(c, fn(name, t[2][0]))
            return self.new(c, fn(name, t))
        if name in ("set", "frozenset"):
            if not ta:
                return self.new(c, ("set", ()))
            raw = ta[0]
            if raw[0] in ("list", "tuple"):
                return self.new(c, ("set", tuple(sorted(raw[1], key=repr))))
            while raw[0] == "fn" and raw[1] in ("set", "list", "tuple", "sorted") and len(raw[2]) == 1:
                raw = raw[2][0]
            return self.new(c, fn("set", raw))
        if name == "float" and len(ta) == 1:
            if ta[0] in (const("nan"), const("NaN")):
                return self.new(c, T.NAN)
            if ta[0] in (const("inf"),):
                return self.new(c, T.INF)
            return self.new(c, ta[0] if T.is_num(ta[0]) else fn("float", ta[0]))
        if name in ("min", "max"):
            if len(ta) == 2 and not tk:
                return self.new(c, ("fn", name, tuple(sorted(ta, key=repr)), ()))
        if name == "sum" and len(ta) == 1:
            if ta[0][0] in ("list", "tuple"):
                s = const(0)
                for x in ta[0][1]:
                    s = T.add(s, x)
                return self.new(c, s)
            if ta[0][0] == "comp" and is_boolish(ta[0][2]):
                return self.new(c, fn("count_true", ta[0]))
            t = ta[0]
            if t[0] == "comp":
                t = ("comp", "gen") + t[2:]
            return self.new(c, ("fn", "sum", (t,), ()))
        if name == "zip":
            if len(args) == 1 and c.store[args[0]][0] == "star":
                return self.new(c, ("fn", "unzip", (self.snap(c, args[0])[1],), ()))
            return self.new(c, ("fn", "zip", tuple(ta), ()))
        if name == "map" and len(ta) == 2:
            if ta[0] in self.funcs and ta[1][0] != "list":
                func, env, fr = self.funcs[ta[0]]
                src = ta[1]
                self.comp_mode += 1
                try:
                    outs = self.inline(c.copy(), func, None, [self.new(c, ("elem", src))], {}, n, closure=env, cframe=fr)
                finally:
                    self.comp_mode -= 1
                if len(outs) == 1:
                    return self.new(c, ("comp", "gen", self.snap(*outs[0]), (src,), ()))
            return self.new(c, ("comp", "gen", ("fn", "apply", (ta[0], ("elem", ta[1])), ()), (ta[1],), ()))
        if name == "super":
            return self.new(c, ("super",))
        if name == "iter" and len(ta) == 1:
            return self.new(c, ta[0], alias=(args[0],))
        if name == "id" and len(ta) == 1:
            return self.new(c, ("fn", "id", (ta[0],), ()))
        if name in BUILTIN_PURE:
            return self.new(c, ("fn", name, tuple(ta), tuple(sorted(tk.items()))))
        if name[:1].isupper() and (name.endswith("Error") or name.endswith("Exception") or name in
                                   ("Warning", "RuntimeWarning", "StopIteration", "KeyboardInterrupt", "UserWarning")):
            return self.new(c, ("exc", name))
        return self.opaque_call(c, name, None, args, kw, n)

    def key_term(self, st, kref, src, n):
        """the sort key of an element of src; the function itself if it cannot be written as one term"""
        t = st.store[kref]
        c = st.copy()
        nraised = len(self.raised)
        a = self.new(c, ("elem", src))
        outs = []
        if t in self.funcs:
            func, env, fr = self.funcs[t]
            outs = self.inline(c, func, None, [a], {}, n, closure=env, cframe=fr)
        elif t[0] == "bound":
            for r, k in self.objcls.items():
                if c.store.get(r) == t[1] or self.snap(c, r) == t[1]:
                    m = self.prog.method(k, t[2])
                    if m and self.inlinable(m, k):
                        outs = self.inline(c, m, r, [a], {}, n)
                    break
        del self.raised[nraised:]
        if 1 <= len(outs) <= 4:
            return ("keyed",) + tuple(self.snap(x, r) for x, r in outs)
        return self.snap(st, kref)

    def isinstance_(self, x, cls):
        if cls[0] in ("tuple", "list"):
            return T.or_(*[self.isinstance_(x, c) for c in cls[1]])
        nm = cls[1] if len(cls) > 1 else "?"
        if isinstance(nm, str):
            nm = nm.split(".")[-1]
        if T.is_const(x) and nm == "str":
            return const(isinstance(x[1], str) and not (x in (T.NAN, T.INF)))
        if x == NONE:
            return FALSE
        if nm in ("Series", "DataFrame") and x[0] == "fn" and x[1] in ("Series", "DataFrame"):
            return const(x[1] == nm)
        if nm in ("Series", "DataFrame") and T.is_const(x):
            return FALSE
        return ("isinstance", x, nm)

    def ext_call(self, st, name, args, kw, n, stmt):
        ta = [self.snap(st, a) for a in args]
        tk = {k: self.snap(st, v) for k, v in kw.items()}
        short = EXT.get(name)
        if name.startswith("warnings."):
            return self.log_call(n, st)
        if name in MUT_EXT and args:
            self.mutate(st, args[0], name, ("mut", ta[0], name) + tuple(ta[1:]), ta, n)
            return [(st, self.new(st, NONE))]
        if name == "copy.deepcopy" and self.deep_distinct:
            t = fn("deepcopy", *(ta + [v for _, v in sorted(tk.items())]))
            r = self.new(st, t)
            self.event(st, "deepcopy", "deepcopy", None, ta, node=n, res=t, recv_ref=r, arg_refs=args)
            return [(st, r)]
        if name == "copy.deepcopy":
            r = self.new(st, ta[0] if ta else NONE)
            self.event(st, "deepcopy", "deepcopy", None, ta, node=n, res=ta[0] if ta else None, recv_ref=r, arg_refs=args)
            self.copy_container(st, args[0], r)
            return [(st, r)]
        if name == "copy.copy" and args:
            return [(st, self.new(st, st.store[args[0]]))]
        if "out" in kw:
            self.mutate(st, kw["out"], "out", ("mut", tk["out"], name), ta, n)
        if name.split(".")[-1] in ("Error",) or name.endswith("Error") or name in ("queue.Empty", "queue.Full"):
            return [(st, self.new(st, ("exc", name)))]
        pure = (short is not None or any(name.startswith(p) for p in PURE_PREFIX)) and \
            not any(name.startswith(p) for p in IMPURE_EXT)
        if not pure:
            r = self.opaque_call(st, name, None, args, kw, n)
            return [(st, r)]
        t = self.ext_term(name, short, ta, tk)
        al = ()
        if name in ("numpy.asarray", "numpy.squeeze", "numpy.ravel", "numpy.reshape", "numpy.transpose", "numpy.atleast_1d",
                    "numpy.broadcast_to") or (short == "Series" and len(args) == 1 and not kw and ta and not
                                              ta[0][0] in ("list", "dict", "const")):
            al = (args[0],)
        if short == "Series" and len(args) == 1 and not kw and al:
            return [(st, self.new(st, ta[0], alias=al))]
        return [(st, self.new(st, t, alias=al))]

    def copy_container(self, st, src, dst):
        """deep copy: containers get fresh element refs"""
        raw = st.store[src]
        if raw[0] in ("tuple", "list"):
            st.store[dst] = (raw[0], tuple(("ref", self.new(st, self.resolve_refs(st, x))) for x in raw[1]))
            for x in st.store[dst][1]:
                self.deep_fresh.add(x[1])
        self.deep_fresh.add(dst)

    deep_fresh = set()

    def ext_term(self, name, short, a, k):
        if short in ("isna", "abs", "any", "all") and a:
            return fn(short, a[0])
        if short == "norm" and len(a) == 1 and not k:
            return fn("norm", a[0])
        if short == "not" and a:
            return T.not_(a[0])
        if short in ("and", "or") and len(a) == 2:
            return (T.and_ if short == "and" else T.or_)(*a)
        if short in ("<", "<=", ">", ">=", "==", "!=") and len(a) == 2:
            return T.cmp(short, *a)
        if short == "-" and len(a) == 2:
            return T.sub(*a)
        if short == "+" and len(a) == 2:
            return T.add(*a)
        if short == "*" and len(a) == 2:
            return T.mul(*a)
        if short == "/" and len(a) == 2:
            return T.div(*a)
        if short == "square" and a:
            return T.mul(a[0], a[0])
        if short == "len" and a:
            return fn("len", a[0])
        if short == "copy" and a:
            return a[0]
        if short == "isin" and len(a) == 2:
            return ("fn", "isin", (a[0], _strip(a[1])), ())
        if short in ("min", "max") and len(a) == 2 and not k:
            return ("fn", short, tuple(sorted(a, key=repr)), ())
        if short in SIG:
            names = SIG[short]
            kk = dict(k)
            for nm, v in zip(names, a):
                kk[nm] = v
            if short == "concat" and kk.get("objs", NONE)[0] in ("list", "tuple") and len(kk["objs"][1]) > 1 and \
                    kk.get("axis", const(0)) in (const(0), const("index")) and not any(x[0] == "star" for x in kk["objs"][1]):
                t = kk["objs"][1][0]
                rest = tuple(sorted((x, y) for x, y in kk.items() if x not in ("objs", "axis")))
                for y in kk["objs"][1][1:]:
                    t = ("fn", "concat2", (t, y), rest)
                return t
            if short in ("Series", "DataFrame", "concat"):
                return ("fn", short, (), tuple(sorted(kk.items())))
        return ("fn", short or name, tuple(a), tuple(sorted(k.items())))


# ---------------------------------------------------------------------- helpers
def filtered(elem, src, cnd):
    """the sequence of the elements that fulfil the conditions"""
    t = elem[1] if elem[0] == "t" else ("tuple", tuple(e[1] if e[0] == "t" else const(None) for e in elem[1]))
    return ("comp", "list", t, tuple(src), tuple(cnd))


def shifted(elem, ix):
    """the element at the same number of another sequence"""
    if elem[0] == "tup":
        return ("tup", [shifted(e, ix) for e in elem[1]])
    t = elem[1]
    if t[0] == "elem":
        return ("t", ("item", t[1], ix), None)
    if t[0] in ("key", "val"):
        return ("t", ("item", ("fn", "." + t[0] + "s", (t[1],), ()), ix), None)
    return elem


def _has_ref(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if x and x[0] == "ref":
            return True
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)
    return False


def _ladder(rest):
    """alternatives a, (not a and b), ... say a or b or ...: what an alternative of one condition excludes is not repeated"""
    done = set()
    while True:
        single = {(x[0].term, x[0].val) for x in rest if len(x) == 1}
        if single <= done:
            return rest
        done |= single
        rest = [x if len(x) < 2 else [f for f in x if (f.term, not f.val) not in single] or x for x in rest]


def _copy_event(e):
    e2 = Event(e.kind, e.name, e.recv, e.args, e.kw, e.loc, e.loops, e.nfacts, e.res, e.recv_ref, e.arg_refs, e.kw_refs,
               e.extra, e.stack)
    return e2


def _clip(e, n):
    e2 = _copy_event(e)
    e2.nfacts = n
    return e2


def _strip(x):
    while x[0] == "fn" and x[1] in ("set", "list", "tuple", "sorted", "keys", "frozenset") and len(x[2]) >= 1:
        x = x[2][0]
    return x


def _fact_term(f):
    return f.term if f.val else T.not_(f.term)


def _load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    for n in ast.walk(t2):
        if hasattr(t, "lineno"):
            n.lineno, n.col_offset = t.lineno, t.col_offset
    return t2


def exact_valued(p):
    """integers that cannot be NaN: lengths, indices and constants"""
    for m, _ in T.to_poly(p).items():
        for a, _ in m:
            if not (a[0] == "index" or (a[0] == "fn" and a[1] in ("len", "int", "count_true"))):
                return False
    return True


def exc_name(t):
    if t[0] == "exc":
        return t[1]
    if t[0] in ("glob", "builtin", "cls"):
        return t[1].split(".")[-1]
    if t[0] == "excobj":
        return t[1]
    return "?"


HIER = {"RuntimeError": ["Exception"], "ValueError": ["Exception"], "KeyError": ["LookupError", "Exception"],
        "IndexError": ["LookupError", "Exception"], "TypeError": ["Exception"], "AttributeError": ["Exception"],
        "OSError": ["Exception"], "IOError": ["OSError", "Exception"], "FileNotFoundError": ["OSError", "Exception"],
        "AssertionError": ["Exception"], "NotImplementedError": ["RuntimeError", "Exception"],
        "ArithmeticError": ["Exception"], "LookupError": ["Exception"], "StopIteration": ["Exception"],
        "EvaluationError": ["RuntimeError", "Exception"], "ZeroDivisionError": ["ArithmeticError", "Exception"],
        "RuntimeWarning": ["Warning", "Exception"], "LinAlgError": ["Exception"], "OptimizeWarning": ["Warning", "Exception"]}


def handler_types(h):
    if h.type is None:
        return ["BaseException"]
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [ast.unparse(t).split(".")[-1] for t in ts]


def matches(ename, types):
    """True: surely caught, False: surely not, None: unknown"""
    if "BaseException" in types:
        return True
    if ename in ("?", "reraise"):
        if "Exception" in types:
            return True     # exceptions of ordinary calls
        return None
    anc = [ename] + HIER.get(ename, ["Exception"]) + ["BaseException"]
    return any(t in anc for t in types)


def is_logger(node):
    """x.logger / logger / logging / logging.getLogger(...)"""
    if isinstance(node, ast.Attribute):
        return node.attr in ("logger", "_log", "log") or (node.attr == "_logger" and False)
    if isinstance(node, ast.Name):
        return node.id in ("logger", "logging", "log", "LOGGER")
    if isinstance(node, ast.Call):
        return "getLogger" in ast.unparse(node.func)
    return False


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        parts.append(n.id)
        return ".".join(reversed(parts))
    return None


def assigned_names(stmts):
    names, attrs = [], []
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and n.id not in names:
                names.append(n.id)
        def visit_Attribute(self, n):
            if isinstance(n.ctx, ast.Store):
                d = dotted(n)
                if d and d not in attrs:
                    attrs.append(d)
            self.generic_visit(n)
        def visit_FunctionDef(self, n):
            pass
        def visit_Lambda(self, n):
            pass
        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp
    v = V()
    for s in stmts:
        v.visit(s)
    return names, attrs


def attrs_refs(st, attrs, interp):
    out = []
    for d in attrs:
        parts = d.split(".")
        if len(parts) == 2 and parts[0] in st.env:
            r = st.env[parts[0]]
            if interp.objcls.get(r) is not None and interp.prog.setter(interp.objcls[r], parts[1]) is None:
                out.append((r, parts[1]))
    return out


def counter_names(stmts):
    """names whose only change in the loop body is one unconditional `n += 1`"""
    out = []
    for s in stmts:
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and \
                isinstance(s.value, ast.Constant) and s.value.value == 1:
            n = 0
            for q in stmts:
                for x in ast.walk(q):
                    if isinstance(x, ast.Name) and x.id == s.target.id and isinstance(x.ctx, ast.Store):
                        n += 1
                    if isinstance(x, ast.Continue):
                        n += 10
            # reads after the increment would see index + 1
            idx = stmts.index(s)
            late = any(isinstance(x, ast.Name) and x.id == s.target.id for q in stmts[idx + 1:] for x in ast.walk(q))
            if n == 1 and not late:
                out.append(s.target.id)
    return out

"""C21: what functions do to the objects their callers hand them."""
import ast
from ..loader import Func, walk_local
from ..vocab import METHODS

# an object reached through these is (a view of) the same data
VIEW_ATTRS = {"T", "values", "flat", "real", "imag", "iloc", "loc", "at", "iat", "array", "base", "_values"}
PLAIN_ATTRS = {"shape", "size", "ndim", "dtype", "name", "dtypes", "empty", "itemsize", "nbytes", "is_unique"}
VIEW_METHODS = {"squeeze", "ravel", "reshape", "transpose", "swapaxes", "view", "to_numpy", "diagonal", "__getitem__", "byteswap_view"}
ITEM_METHODS = {"get", "pop", "popitem", "setdefault", "__getitem__", "next"}
PART_METHODS = {"items", "values", "iterrows", "iteritems", "itertuples", "groupby", "keys"}
FRESH_METHODS = {"copy", "astype", "flatten", "tolist", "sum", "mean", "apply", "applymap", "sort_index", "sort_values", "append",
                 "rename", "reindex", "drop", "dropna", "fillna", "set_axis", "abs", "round", "dot", "filter", "to_dict", "isna",
                 "isnull", "notna", "min", "max", "std", "var", "argmax", "argmin", "nonzero", "tolist", "union", "difference",
                 "intersection", "reset_index", "set_index", "add", "sub", "mul", "div", "where", "mask", "repeat", "cumsum",
                 "conj", "clip", "all", "any", "format", "join", "split"}
VIEW_FUNCS = {"asarray", "asanyarray", "squeeze", "ravel", "reshape", "atleast_1d", "atleast_2d", "transpose", "real", "imag",
              "swapaxes", "ascontiguousarray", "diagonal", "moveaxis", "expand_dims", "flip", "flipud", "fliplr", "rollaxis",
              "broadcast_to", "asfarray"}
HOLD_FUNCS = {"list", "tuple", "set", "sorted", "dict", "iter", "OrderedDict", "deque", "frozenset", "filter", "islice", "chain"}
INPLACE_STMT = {"append", "insert", "add", "discard", "extend", "remove", "update", "sort", "reverse", "clear", "appendleft",
                "extendleft", "rotate"}
INPLACE_ALWAYS = {"pop", "popitem", "setdefault", "fill", "itemset", "partition", "put", "popleft", "__setitem__", "__delitem__",
                  "__iadd__", "__isub__", "__imul__", "__itruediv__", "setfield", "set_value", "resize"}
ARG0_FUNCS = {"shuffle", "put", "place", "copyto", "fill_diagonal", "putmask", "heappush", "heapify", "heappop", "insort",
              "put_along_axis"}
UFUNC_AT = {"at"}
ARRAYLIKE = ("ndarray", "Series", "DataFrame", "List", "Dict", "dict", "list", "Mapping", "MutableSequence", "Set", "array")
IMMUTABLE = ("str", "int", "float", "bool", "Tuple", "tuple", "Number", "Callable", "complex", "bytes")
ARR_USE = VIEW_ATTRS | {"shape", "squeeze", "copy", "ravel", "reshape", "index", "columns", "size", "dot", "mean", "sum", "std",
                        "sort_index", "append", "items", "flatten", "ndim", "dtype", "keys", "apply", "notna", "isna", "max", "min",
                        "sort", "extend", "pop", "update"}

NONE = frozenset()
NUM = frozenset([("num",)])


def is_(root, strong=False):
    return frozenset([("is", root, strong)])


def roots(v, kind="is"):
    return {a[1] for a in v if a[0] == kind}


def parts(v, strong=()):
    """what the elements of v may be"""
    return frozenset(("is", a[1], "elem" if a[1] in strong and a[-1] not in ("elem", False) else False)
                     for a in v if a[0] in ("is", "has"))


def holds(v):
    return frozenset(("has", a[1]) for a in v if a[0] in ("is", "has"))


def strong(v):
    return frozenset(("is", a[1], a[2] or True) if a[0] == "is" else a for a in v)


def join(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, NONE) | v if k in out else v
    return out


SEQ_FUNCS = {"len", "mean", "nanmean", "median", "nanmedian", "argmax", "argmin", "nanargmax", "nanargmin", "gradient", "diff",
             "cumsum", "sort", "std", "var", "nanstd", "nanvar", "polyfit", "fft", "rfft", "interp", "convolve", "sorted", "max",
             "min", "nanmax", "nanmin", "ptp", "histogram", "percentile", "dot", "stack", "concatenate", "outer", "diag",
             "enumerate", "squeeze", "asarray", "array", "ravel", "savgol_filter", "gaussian_filter", "norm"}


class Summary:
    def __init__(self):
        self.mut = {}       # parameter -> (node, how)
        self.maybe = {}
        self.ret = NONE     # in terms of ("param", name)
        self.known = False


class Flow:
    """one function"""

    def __init__(self, an, f, raw=(), own=()):
        self.an, self.f, self.raw, self.own = an, f, raw, own
        self.sum = Summary()
        self.evidence = {}
        self.selfname = None
        pos, kwonly, _, va, kw = f.params()
        self.params = pos + kwonly
        if f.cls is not None and f.kind != "staticmethod" and pos and f.outer is None:
            self.selfname = pos[0]
        ann = f.annotations()
        env = {}
        self.arrays = {("param", n) for n, a in ann.items() if a is not None and "[" in ast.unparse(a) and
                       any(x in ast.unparse(a).split("[", 1)[1] for x in ("ndarray", "Series", "DataFrame"))}
        for n in self.params:
            if n == self.selfname:
                env[n] = NONE
                continue
            a = ast.unparse(ann[n]) if ann.get(n) is not None else ""
            if a and not any(x in a for x in ARRAYLIKE) and any(x in a for x in IMMUTABLE) and "Sequence" not in a and "Any" not in a:
                env[n] = NUM if not any(x in a for x in ("Tuple", "tuple")) else frozenset([("has", ("param", n))])
            else:
                env[n] = is_(("param", n), any(x in a for x in ARRAYLIKE))
        if kw:
            env[kw] = frozenset([("has", ("param", kw))])
        if va:
            env[va] = frozenset([("has", ("param", va))])
        self.rets = NONE
        body = f.node.body if isinstance(f.node.body, list) else [ast.Expr(f.node.body)]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ARR_USE:
                self.evidence[n.value.id] = True
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and \
                    (isinstance(n.ctx, (ast.Store, ast.Del)) or not isinstance(n.slice, ast.Constant)):
                self.evidence[n.value.id] = True
            elif isinstance(n, ast.Call):
                fn = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
                if fn in SEQ_FUNCS:
                    for a in n.args[:1]:
                        if isinstance(a, ast.Name):
                            self.evidence[a.id] = True
                for k in n.keywords:
                    if k.arg in ("xdata", "ydata", "x_data", "y_data") and isinstance(k.value, ast.Name):
                        self.evidence[k.value.id] = True
            elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name):
                self.evidence[n.iter.id] = True
        self.block(body, env)
        self.sum.ret = frozenset(a for a in self.rets if a[0] in ("is", "has"))

    # -- sinks
    def hit(self, v, node, how, certain=True):
        for a in v:
            if a[0] == "is":
                d = self.sum.mut if certain else self.sum.maybe
                d.setdefault(a[1], (node, how))

    # -- statements
    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def loop(self, s, env, bind):
        for _ in range(4):
            e = dict(env)
            bind(e)
            out = self.block(s.body, e)
            new = join(env, out) if out is not None else env
            new = join(new, e)
            if new == env:
                break
            env = new
        if s.orelse:
            env = self.block(s.orelse, dict(env)) or env
        return env

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.bind(t, v, s.value, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), s.value, env)
        elif isinstance(s, ast.AugAssign):
            self.ev(s.value, env)
            t = s.target
            if isinstance(t, ast.Name):
                v = env.get(t.id, NONE)
                for a in v:
                    if a[0] == "is":
                        sure = a[2] or self.evidence.get(t.id) or (a[1] == ("param", t.id) and self.evidence.get(t.id))
                        self.hit(frozenset([a]), s, "%s= changes it in place" % OPS.get(type(s.op), ""), bool(sure))
            else:
                self.store(t, env, s, aug=True)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                else:
                    self.store(t, env, s)
        elif isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Call):
                self.call(s.value, env, used=False)
            else:
                self.ev(s.value, env)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.rets |= self.ev(s.value, env)
            return None
        elif isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.ev(x, env)
            # after continue/break the state flows on: keep it by remembering it in the enclosing loop
            if isinstance(s, ast.Raise):
                return None
            self.pending.append(dict(env)) if hasattr(self, "pending") else None
            return None
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            a = self.block(s.body, dict(env))
            b = self.block(s.orelse, dict(env))
            return a if b is None else b if a is None else join(a, b)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            return self.looped(s, env, lambda e: self.bind_iter(s.target, s.iter, e))
        elif isinstance(s, ast.While):
            return self.looped(s, env, lambda e: self.ev(s.test, e))
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, i.context_expr, env)
            return self.block(s.body, env)
        elif isinstance(s, ast.Try):
            start = dict(env)
            out = self.block(s.body, dict(env))
            mid = join(start, out) if out is not None else self.all_assigned(s.body, start)
            outs = []
            if out is not None:
                out = self.block(s.orelse, out) if s.orelse else out
                if out is not None:
                    outs.append(out)
            for h in s.handlers:
                e = dict(mid)
                if h.name:
                    e[h.name] = NONE
                e = self.block(h.body, e)
                if e is not None:
                    outs.append(e)
            if not outs:
                if s.finalbody:
                    self.block(s.finalbody, dict(mid))
                return None
            res = outs[0]
            for o in outs[1:]:
                res = join(res, o)
            return self.block(s.finalbody, res) if s.finalbody else res
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.nested(s, env)
            env[s.name] = NONE
        elif isinstance(s, ast.ClassDef):
            env[s.name] = NONE
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)
        elif isinstance(s, ast.Match) if hasattr(ast, "Match") else False:
            self.ev(s.subject, env)
            outs = [self.block(c.body, dict(env)) for c in s.cases] + [env]
            outs = [o for o in outs if o is not None]
            res = outs[0]
            for o in outs[1:]:
                res = join(res, o)
            return res
        return env

    def all_assigned(self, body, env):
        return env

    def looped(self, s, env, bind):
        old = getattr(self, "pending", None)
        self.pending = []
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.ev(s.iter, env)
        out = self.loop(s, env, bind)
        for p in self.pending:
            out = join(out, p)
        if self.pending:
            out = self.loop(s, out, bind)
            for p in self.pending:
                out = join(out, p)
        if old is None:
            del self.pending
        else:
            self.pending = old
        return out

    def nested(self, node, env):
        e = dict(env)
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            e[x.arg] = NONE
        rets, self.rets = self.rets, NONE
        self.block(node.body, e)
        self.rets = rets

    # -- binding
    def kept(self, attr, value, env):
        """the objects named in value are now the stored raw data"""
        if isinstance(value, (ast.Tuple, ast.List)):
            for x in value.elts:
                self.kept(attr, x, env)
        elif isinstance(value, ast.Name) and value.id != self.selfname:
            env[value.id] = frozenset(a for a in env.get(value.id, NONE) if a != ("num",)) | is_(("raw", attr), True)
        elif isinstance(value, ast.Attribute) and value.attr in VIEW_ATTRS:
            self.kept(attr, value.value, env)
        elif isinstance(value, ast.Subscript) and has_slice(value.slice):
            self.kept(attr, value.value, env)
        elif isinstance(value, ast.IfExp):
            self.kept(attr, value.body, env)
            self.kept(attr, value.orelse, env)
        elif isinstance(value, ast.Call):
            n = value.func.attr if isinstance(value.func, ast.Attribute) else value.func.id if isinstance(value.func, ast.Name) else ""
            if n in VIEW_FUNCS | HOLD_FUNCS and value.args and not (isinstance(value.func, ast.Attribute) and
                                                                    self.an.module_of(value.func.value, self.f.module, env) is None):
                for x in value.args[:1]:
                    self.kept(attr, x, env)
            elif n in VIEW_METHODS and isinstance(value.func, ast.Attribute):
                self.kept(attr, value.func.value, env)

    def bind(self, t, v, value, env):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.selfname and \
                t.attr in self.raw and value is not None:
            self.kept(t.attr, value, env)
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and \
                    not any(isinstance(x, ast.Starred) for x in list(value.elts) + list(t.elts)):
                vs = [self.ev(x, env) for x in value.elts]
                for x, y, w in zip(t.elts, vs, value.elts):
                    self.bind(x, y, w, env)
            else:
                for x in t.elts:
                    if isinstance(x, ast.Starred):
                        self.bind(x.value, holds(v), None, env)
                    else:
                        self.bind(x, parts(v, self.arrays), None, env)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, holds(v), None, env)
        else:
            self.store(t, env, t)

    def store(self, t, env, node, aug=False):
        """t: attribute or subscript that is assigned, augmented or deleted"""
        if isinstance(t, ast.Subscript):
            self.ev(t.slice, env)
            self.hit(self.ev(t.value, env), node, "its entries are assigned")
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.selfname:
                if aug:
                    v = self.ev_attr(t, env)
                    self.hit(v, node, "it is changed in place")
                if t.attr in self.own:
                    self.hit(is_(("own", t.attr), True), node, "it is replaced")
                return
            self.hit(self.ev(t.value, env), node, "its attribute %s is assigned" % t.attr)

    def bind_iter(self, target, it, env):
        """one turn of for target in it"""
        if isinstance(it, ast.Call) and not it.keywords:
            n = it.func.id if isinstance(it.func, ast.Name) else it.func.attr if isinstance(it.func, ast.Attribute) else None
            if n == "range":
                return self.bind(target, NUM, None, env)
            if n == "enumerate" and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2 and it.args:
                self.bind(target.elts[0], NUM, None, env)
                return self.bind_iter(target.elts[1], it.args[0], env)
            if n in ("zip", "zip_longest", "product") and isinstance(target, (ast.Tuple, ast.List)) and \
                    len(target.elts) == len(it.args):
                for x, y in zip(target.elts, it.args):
                    self.bind_iter(x, y, env)
                return
            if n in ("items", "iterrows", "iteritems") and isinstance(it.func, ast.Attribute) and \
                    isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2:
                v = self.ev(it.func.value, env)
                self.bind(target.elts[0], NUM, None, env)
                # rows of a table are copies
                return self.bind(target.elts[1], NONE if n == "iterrows" else parts(v, self.arrays), None, env)
            if n in ("reversed", "list", "tuple", "sorted", "iter") and len(it.args) == 1:
                return self.bind_iter(target, it.args[0], env)
            if n in ("keys",):
                return self.bind(target, NUM, None, env)
        v = self.ev(it, env)
        if isinstance(it, (ast.Tuple, ast.List)):
            v = NONE
            for x in it.elts:
                v |= self.ev(x, env)
            return self.bind(target, v, None, env)
        self.bind(target, parts(v, self.arrays), None, env)

    # -- expressions
    def ev(self, e, env):
        if e is None:
            return NONE
        if isinstance(e, ast.Name):
            return env.get(e.id, NONE)
        if isinstance(e, ast.Constant):
            return NUM
        if isinstance(e, ast.Attribute):
            return self.ev_attr(e, env)
        if isinstance(e, ast.Subscript):
            return self.ev_sub(e, env)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            return self.ev(e.body, env) | self.ev(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            v = NONE
            for x in e.values:
                v |= self.ev(x, env)
            return v
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            self.bind(e.target, v, e.value, env)
            return v
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            v = NONE
            for x in e.elts:
                v |= holds(self.ev(x.value if isinstance(x, ast.Starred) else x, env))
            return v
        if isinstance(e, ast.Dict):
            v = NONE
            for x in e.values:
                v |= holds(self.ev(x, env))
            return v
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            en = dict(env)
            for g in e.generators:
                self.bind_iter(g.target, g.iter, en)
                for c in g.ifs:
                    self.ev(c, en)
            if isinstance(e, ast.DictComp):
                return holds(self.ev(e.value, en))
            return holds(self.ev(e.elt, en))
        if isinstance(e, ast.Lambda):
            en = dict(env)
            for x in e.args.posonlyargs + e.args.args + e.args.kwonlyargs:
                en[x.arg] = NONE
            self.ev(e.body, en)
            return NONE
        if isinstance(e, (ast.Await, ast.Starred)):
            return self.ev(e.value, env)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            self.ev(e.value, env)
            return NONE
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(e.left, (ast.List, ast.ListComp)) or isinstance(e.right, (ast.List, ast.ListComp)):
                return holds(a) | holds(b)
            return NUM if a == NUM and b == NUM else NONE
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return NONE

    def ev_attr(self, e, env):
        if isinstance(e.value, ast.Name) and e.value.id == self.selfname:
            if e.attr in self.raw:
                return is_(("raw", e.attr), True)
            if e.attr in self.own:
                return is_(("own", e.attr), True)
            g = self.an.prog.getter(self.f.cls, e.attr) if self.f.cls is not None else None
            if g is not None:
                return frozenset(a for a in self.an.summary(g).ret if a[1][0] in ("raw", "own") and a[1][1] in self.raw + self.own)
            return NONE
        v = self.ev(e.value, env)
        if e.attr in PLAIN_ATTRS:
            return NONE
        if e.attr in VIEW_ATTRS:
            return strong(v)
        if not roots(v):
            return NONE
        gs = self.an.getters.get(e.attr)
        if gs:
            # a property of the package: fresh if every one of that name makes its result
            if all(not self.an.shares_self(g) for g in gs):
                return NONE
        return frozenset(a for a in v if a[0] == "is")

    def ev_sub(self, e, env):
        v = self.ev(e.value, env)
        i = self.ev(e.slice, env)
        if not v:
            return NONE
        if basic(e.slice, i, self, env):
            sl = has_slice(e.slice)
            out = NONE
            if sl:
                out |= strong(frozenset(a for a in v if a[0] == "is")) | frozenset(a for a in v if a[0] == "has")
            else:
                out |= parts(v, self.arrays)
            return out
        return NONE

    def args(self, e, env):
        return [self.ev(a.value if isinstance(a, ast.Starred) else a, env) for a in e.args], \
               {k.arg: self.ev(k.value, env) for k in e.keywords}

    def call(self, e, env, used=True):
        args, kws = self.args(e, env)
        fn = e.func
        for k, v in kws.items():
            if k == "out":
                self.hit(v, e, "it is given as out=")
        flat = [a for a in args] + list(kws.values())
        if isinstance(fn, ast.Name):
            n = fn.id
            r = self.an.prog.lookup(self.f.module, n) if n not in env else None
            if r is not None and r[0] == "func":
                return self.apply([r[1]], args, kws, e, None)
            if r is not None and r[0] == "class":
                m = self.an.prog.method(r[1], "__init__")
                if m is not None:
                    self.apply([m], args, kws, e, 1)
                return NONE
            if n in ("len", "int", "float", "bool", "str", "abs", "round", "hash", "id", "sum", "min", "max") and n not in env:
                return NUM if n in ("len", "int", "float", "bool", "str") else NONE
            if n in HOLD_FUNCS:
                v = NONE
                for a in flat:
                    v |= holds(a)
                return v
            if n in ("enumerate", "zip", "reversed", "map"):
                v = NONE
                for a in flat:
                    v |= holds(a)
                return v
            if n == "next" and args:
                return parts(args[0], self.arrays)
            if n in ("setattr", "delattr") and args:
                if not (isinstance(e.args[0], ast.Name) and e.args[0].id == self.selfname):
                    self.hit(args[0], e, "its attribute is assigned")
                return NONE
            if n == "getattr" and args:
                return parts(args[0], self.arrays)
            if n == "deepcopy":
                return NONE
            return NONE
        if not isinstance(fn, ast.Attribute):
            self.ev(fn, env)
            return NONE
        n = fn.attr
        # functions of modules
        r = self.an.module_of(fn.value, self.f.module, env)
        if r is not None:
            q = self.an.prog.lookup(self.f.module, fn.value.id) if isinstance(fn.value, ast.Name) else None
            target = self.an.function(r, n)
            if target is not None:
                return self.apply([target], args, kws, e, None)
            if r.startswith("numpy.random") and n == "shuffle" or n in ARG0_FUNCS and r.split(".")[0] in ("numpy", "heapq", "bisect",
                                                                                                      "random"):
                if args:
                    self.hit(args[0], e, "%s.%s changes it" % (r, n))
                return NONE
            if n in UFUNC_AT and args and r.startswith("numpy."):
                self.hit(args[0], e, "%s.at changes it" % r)
                return NONE
            if r.split(".")[0] == "numpy" and n in VIEW_FUNCS and args:
                return strong(args[0])
            if r.split(".")[0] == "numpy" and n in ("array", "require") and args:
                c = [k for k in e.keywords if k.arg == "copy"]
                if c and isinstance(c[0].value, ast.Constant) and c[0].value.value is False:
                    return strong(args[0])
                return NONE
            if r.split(".")[0] == "numpy" and n in ("nan_to_num",) and args:
                c = [k for k in e.keywords if k.arg == "copy"]
                if c and isinstance(c[0].value, ast.Constant) and c[0].value.value is False:
                    self.hit(args[0], e, "nan_to_num(copy=False) changes it")
                return NONE
            if r.split(".")[0] == "pandas" and n in ("Series", "DataFrame") and args:
                # the constructors keep arrays they are given
                c = [k for k in e.keywords if k.arg == "copy"]
                d = kws.get("data", args[0])
                if c and not (isinstance(c[0].value, ast.Constant) and c[0].value.value is False):
                    return NONE
                return frozenset(("has", a[1]) for a in d if a[0] in ("is", "has"))
            if n in ("copy",) and r == "copy" and args:
                return holds(args[0])
            if n in ("OrderedDict", "chain", "islice", "deque", "cycle", "defaultdict"):
                v = NONE
                for a in flat:
                    v |= holds(a)
                return v
            return NONE
        # methods
        if isinstance(fn.value, ast.Name) and fn.value.id == self.selfname and self.f.cls is not None:
            m = self.an.prog.method(self.f.cls, n)
            if m is not None:
                over = [c.methods[n] for c in self.an.prog.subclasses(self.f.cls.name) if n in c.methods and c is not m.cls]
                return self.apply([m] + over, args, kws, e, 0 if m.kind == "staticmethod" else 1)
            return NONE
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and \
                self.f.cls is not None:
            m = self.an.prog.method(self.f.cls, n, after=self.f.cls)
            return self.apply([m], args, kws, e, 1) if m is not None else NONE
        v = self.ev(fn.value, env)
        if n in ("append", "insert", "extend") and not used and isinstance(fn.value, ast.Attribute) and \
                isinstance(fn.value.value, ast.Name) and fn.value.value.id == self.selfname and fn.value.attr in self.raw and e.args:
            self.kept(fn.value.attr, e.args[-1], env)
        if n in INPLACE_ALWAYS or (n in INPLACE_STMT and not used):
            self.hit(v, e, ".%s() changes it in place" % n)
            if n in ("append", "extend", "add", "insert", "update", "appendleft", "setdefault") and not used and \
                    isinstance(fn.value, ast.Name):
                w = env.get(fn.value.id, NONE)
                for a in flat:
                    w |= holds(a)
                env[fn.value.id] = w
        elif used and n in ("sort", "reverse", "extend", "remove") and n != "append":
            self.hit(v, e, ".%s() changes it in place" % n)
        for k in e.keywords:
            if k.arg == "inplace" and not (isinstance(k.value, ast.Constant) and k.value.value is False):
                self.hit(v, e, ".%s(inplace=True) changes it" % n, isinstance(k.value, ast.Constant))
        if n in VIEW_METHODS:
            return strong(frozenset(a for a in v if a[0] == "is")) | frozenset(a for a in v if a[0] == "has")
        if n in FRESH_METHODS:
            if n == "astype" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False
                                     for k in e.keywords):
                return strong(v)
            if n == "copy" and any(k.arg == "deep" and isinstance(k.value, ast.Constant) and k.value.value is False
                                   for k in e.keywords):
                return strong(v)
            return NONE
        if n in ITEM_METHODS:
            return parts(v, self.arrays)
        if n in PART_METHODS:
            return holds(v)
        # methods of the package's classes called on something else
        ms = self.an.methods.get(n)
        if ms:
            c = [(m, self.an.summary(m)) for m in ms]
            self.apply([m for m, _ in c], args, kws, e, 1, every=True)
            if roots(v) and any(any(a[0] == "is" and a[1][0] in ("raw", "own") for a in s.ret) for m, s in c):
                return parts(v, self.arrays)
        return NONE

    def apply(self, funcs, args, kws, e, skip, every=False):
        """effects of calling the functions; skip: number of implicit leading parameters"""
        out = NONE
        hits = []
        for f in funcs:
            s = self.an.summary(f)
            pos, kwonly, _, va, kw = f.params()
            if f.cls is not None and f.kind != "staticmethod" and f.outer is None:
                pos = pos[1:]
            amap = dict(zip(pos, args))
            if not any(isinstance(a, ast.Starred) for a in e.args):
                for k, v in kws.items():
                    if k in pos + kwonly:
                        amap[k] = v
            if va and len(args) > len(pos):
                amap[va] = frozenset().union(*[holds(a) for a in args[len(pos):]])
            hits.append({(p, how) for (kind, p), (_, how) in s.mut.items() if kind == "param" and p in amap})
            for (kind, p), (node, how) in s.mut.items():
                if kind == "param" and p in amap and not every:
                    self.hit(amap[p], e, "%s changes it: %s (line %d)" % (f.qual, how, getattr(node, "lineno", 0)))
                elif kind == "param" and p in amap:
                    self.hit(amap[p], e, "%s may change it: %s" % (f.qual, how), len(funcs) == 1)
            for a in s.ret:
                if a[1][0] == "param" and a[1][1] in amap:
                    w = amap[a[1][1]]
                    out |= w if a[0] == "is" else holds(w)
        return out


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.MatMult: "@", ast.FloorDiv: "//", ast.Mod: "%",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}


def has_slice(s):
    if isinstance(s, ast.Slice):
        return True
    if isinstance(s, ast.Constant) and s.value is Ellipsis:
        return True
    if isinstance(s, ast.Tuple):
        return any(has_slice(x) for x in s.elts)
    return False


def basic(s, v, flow, env):
    """an index that gives an element or a view, not a copy"""
    if isinstance(s, ast.Slice):
        return True
    if isinstance(s, ast.Constant):
        return True
    if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub) and isinstance(s.operand, ast.Constant):
        return True
    if isinstance(s, ast.Tuple):
        return all(basic(x, flow.ev(x, env), flow, env) for x in s.elts)
    if isinstance(s, ast.JoinedStr):
        return True
    return v == NUM


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.sums = {}
        self.busy = set()
        self.methods, self.getters = {}, {}
        for c in prog.classes.values():
            for n, m in c.methods.items():
                self.methods.setdefault(n, []).append(m)
            for n, m in c.getters.items():
                self.getters.setdefault(n, []).append(m)
        self.share = {}

    def attrs(self, f):
        """(raw data attributes, recorded attributes) that the function only looks at"""
        raw = own = ()
        if f.cls is not None:
            if self.prog.is_subclass(f.cls, "Evaluator"):
                raw = tuple(sorted({n.attr for k in self.prog.mro(f.cls) for m in [*k.methods.values(), *k.setters.values()]
                                    for n in ast.walk(m.node)
                                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and
                                    isinstance(n.ctx, ast.Store) and "raw" in n.attr and "data" in n.attr}))
            if f.cls.name == "History" and (f.prop == "get" or f.name.startswith(("get_", "plot_"))):
                own = self.records(f.cls)
        return raw, own

    def records(self, c):
        m = c.methods.get("append_autotuner")
        out, seen, todo = set(), set(), [m] if m else []
        while todo:
            m = todo.pop()
            if m in seen:
                continue
            seen.add(m)
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    if n.attr in c.methods:
                        todo.append(c.methods[n.attr])
                    elif n.attr in c.getters:
                        todo.append(c.getters[n.attr])
                    elif n.attr not in c.attrs and n.attr not in ("_logger",):
                        out.add(n.attr)
        return tuple(sorted(out))

    def summary(self, f):
        if f.node in self.sums:
            return self.sums[f.node]
        if f.node in self.busy:
            return Summary()
        self.busy.add(f.node)
        raw, own = self.attrs(f)
        s = Flow(self, f, raw, own).sum
        s.known = True
        self.busy.discard(f.node)
        self.sums[f.node] = s
        return s

    def shares_self(self, g):
        """the getter hands out an attribute rather than something it made"""
        if g.node not in self.share:
            self.share[g.node] = True
            rs = [n.value for n in walk_local(g.node) if isinstance(n, ast.Return)]
            self.share[g.node] = not all(self.made(r, g) for r in rs) if rs else True
        return self.share[g.node]

    def made(self, r, g):
        """the expression makes its value"""
        if isinstance(r, (ast.BinOp, ast.Compare, ast.Constant)):
            return True
        if isinstance(r, ast.IfExp):
            return self.made(r.body, g) and self.made(r.orelse, g)
        if isinstance(r, ast.Name):
            vs = [n for n in walk_local(g.node) if isinstance(n, ast.Name) and n.id == r.id and isinstance(n.ctx, ast.Store)]
            defs = [n.value for n in walk_local(g.node) if isinstance(n, ast.Assign) and
                    any(isinstance(t, ast.Name) and t.id == r.id for t in n.targets)]
            return bool(defs) and len(defs) == len(vs) and all(self.made(d, g) for d in defs)
        if not isinstance(r, ast.Call):
            return False
        if isinstance(r.func, ast.Name):
            return r.func.id in ("tuple", "len", "bool", "str", "frozenset")
        if isinstance(r.func, ast.Attribute):
            if isinstance(r.func.value, ast.Name) and r.func.value.id == "self" and g.cls is not None:
                m = self.prog.method(g.cls, r.func.attr)
                return m is not None and not self.shares_self(m)
            return r.func.attr in FRESH_METHODS or r.func.attr == "getLogger"
        return False

    def module_of(self, node, module, env):
        """dotted name of a module or class expression, or None"""
        parts_ = []
        n = node
        while isinstance(n, ast.Attribute):
            parts_.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name) or n.id in env or n.id == "self":
            return None
        r = self.prog.lookup(module, n.id)
        if r is None:
            return None
        for p in reversed(parts_):
            if r is None:
                return None
            if r[0] == "module":
                r = self.prog.resolve(r[1].name + "." + p)
            elif r[0] == "ext":
                r = ("ext", r[1] + "." + p)
            else:
                return None
        if r is None:
            return None
        if r[0] == "module":
            return r[1].name
        if r[0] == "ext":
            return r[1]
        if r[0] == "class":
            return "class:" + r[1].name
        return None

    def function(self, r, n):
        if r.startswith("class:"):
            c = self.prog.classes.get(r[6:])
            m = self.prog.method(c, n) if c else None
            return m if m is not None and m.kind != "function" else None
        if r in self.prog.modules:
            x = self.prog.lookup(self.prog.modules[r], n)
            return x[1] if x and x[0] == "func" else None
        return None


QUERIES = {"suggest_next_position", "estimate", "covariance", "to_hdf5", "get_next_voltages", "ready_to_tune", "is_tuning_complete"}
# writing results of a measurement down is what these are for
RECORDING = (".append()", ".extend()", ".insert()")
SCOPE_CLASSES = ("Solver", "GradientEstimator", "Evaluator", "ParameterTuner", "History", "KalmanGradient")


def in_place(f):
    doc = ast.get_docstring(f.node) if isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)) else None
    doc = " ".join((doc or "").lower().replace("-", " ").split())
    return "in place" in doc or "inplace" in doc


def scope(prog):
    for f in prog.all_funcs():
        if f.outer is not None or f.name not in METHODS or (f.name.startswith("_") and not f.name.startswith("__")):
            continue        # extracted and private helpers count where they are called
        if f.cls is None:
            if f.module.name.split(".")[-1] not in ("storage", "mat2py"):
                yield f
        elif any(prog.is_subclass(f.cls, n) for n in SCOPE_CLASSES):
            yield f


def arguments(ctx):
    prog, rep = ctx.prog, ctx.rep
    an = Analysis(prog)
    raw_of = an.attrs
    state = {}

    def attrs(f):
        raw, own = raw_of(f)
        if f.cls is not None and (f.prop == "get" or f.name in QUERIES):
            if f.cls not in state:
                state[f.cls] = {n.attr for k in prog.mro(f.cls) for m in [*k.methods.values(), *k.setters.values()]
                                for n in ast.walk(m.node)
                                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and
                                isinstance(n.ctx, ast.Store)}
            own = tuple(sorted(set(own) | state[f.cls]))
        return raw, own
    an.attrs = attrs
    n = 0
    for f in scope(prog):
        if in_place(f):
            rep.notes.append("%s says that it works in place" % f.qual)
            continue
        n += 1
        s = an.summary(f)
        rep.stats["functions"].add((f.module.rel, f.qual))
        pos, kwonly, _, va, kw = f.params()
        if f.cls is not None and f.kind != "staticmethod":
            pos = pos[1:]
        if f.name in ("__init__",) and f.cls is not None:
            pass
        for p in pos + kwonly + [x for x in (va, kw) if x]:
            hit = s.mut.get(("param", p))
            if hit is None and s.maybe.get(("param", p)) is not None:
                node, how = s.maybe[("param", p)]
                if not counting(node):
                    rep.unk("argument-unchanged", "%s(%s)" % (f.qual, p), how, at(f, node))
                    continue
            where = at(f, hit[0]) if hit else None
            rep.check(hit is None, "argument-unchanged", "%s(%s)" % (f.qual, p),
                      hit and "the argument %s of %s (or an object reached through it) is modified: %s" % (p, f.qual, hit[1]), where)
        raw, own = an.attrs(f)
        for a in raw:
            hit = s.mut.get(("raw", a))
            if hit is not None and any(hit[1].startswith(x) for x in RECORDING):
                hit = None
            if hit or mentions(f, a):
                rep.check(hit is None, "raw-data-unchanged", "%s: %s" % (f.qual, a),
                          hit and "%s modifies the stored raw data self.%s: %s" % (f.qual, a, hit[1]),
                          at(f, hit[0]) if hit else None)
        records = an.records(f.cls) if f.cls is not None and f.cls.name == "History" else ()
        for a in own:
            hit = s.mut.get(("own", a))
            if hit is not None and hit[1] == "it is replaced" and (a not in records or f.cls.name != "History"):
                hit = None
            if hit is not None and hit[1] == "it is replaced" and f.name == "__init__":
                hit = None
            if hit or mentions(f, a):
                rep.check(hit is None, "query-changes-nothing", "%s: %s" % (f.qual, a),
                          hit and "%s only answers a question, but changes self.%s: %s" % (f.qual, a, hit[1]),
                          at(f, hit[0]) if hit else None)
    rep.need("argument-unchanged", 100)
    rep.need("raw-data-unchanged", 10)
    rep.need("query-changes-nothing", 30)


def at(f, node):
    return "%s:%d" % (f.module.rel, getattr(node, "lineno", f.node.lineno))


def counting(node):
    """n += 1 and the like: only meaningful for numbers"""
    return isinstance(node, ast.AugAssign) and isinstance(node.value, ast.Constant)


def mentions(f, attr):
    return any(isinstance(n, ast.Attribute) and n.attr == attr for n in ast.walk(f.node))


RULES = {
    "C21": (arguments, "Forward alias analysis of every helper, solver, estimator, evaluator, tuner and history function: which "
            "locals may be (views of) an argument, of stored raw data or of recorded state, and whether one of them is assigned "
            "to, augmented, deleted from, or handed to an operation or function (by its own summary) that works in place."),
}

"""C29: every name, attribute and argument used exists; results of in-place operations are not used."""
import ast, builtins, importlib, os, symtable
from .common import *
from ..loader import Class, Func, walk_local, PKG

SITE = [os.path.join(d, "site-packages") for d in
        sorted(("/opt/venv/lib/" + x for x in (os.listdir("/opt/venv/lib") if os.path.isdir("/opt/venv/lib") else ())), reverse=True)]
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "__class__",
                                 "__builtins__", "__loader__", "__annotations__", "__dict__", "WindowsError"}
OBJECT = set(dir(object)) | {"__dict__", "__name__", "__module__", "__qualname__", "__bases__", "__mro__", "__weakref__",
                             "__annotations__", "__subclasses__", "mro", "__wrapped__"}
STDLIB = getattr(__import__("sys"), "stdlib_module_names", frozenset(("os", "math", "collections", "typing", "logging", "re",
                                                                     "enum", "datetime", "itertools", "functools", "copy")))
INPLACE = {"sort", "reverse", "extend", "insert"}        # list methods that return nothing (no array/table method of that name returns
                                                      # a value except those below)
INPLACE_OTHER = {"Series": (), }


# ------------------------------------------------------------------------------------------------ external modules
class External:
    """names that a library module defines, read from its stub or its source; None if not known"""

    def __init__(self):
        self.cache = {}

    def names(self, mod, depth=0):
        if mod in self.cache:
            return self.cache[mod]
        self.cache[mod] = None
        top = mod.split(".")[0]
        res = None
        if top in STDLIB:
            try:
                m = importlib.import_module(mod)
                res = None if hasattr(m, "__getattr__") else set(dir(m)) | self.stdlib_subs(m)
            except Exception:
                res = None
        else:
            for s in SITE:
                p = os.path.join(s, *mod.split("."))
                for f in (os.path.join(p, "__init__.pyi"), p + ".pyi", os.path.join(p, "__init__.py"), p + ".py"):
                    if os.path.isfile(f):
                        res = self.parse(f, mod, depth)
                        break
                if res is not None:
                    break
        self.cache[mod] = res
        return res

    @staticmethod
    def stdlib_subs(m):
        out = set()
        for d in getattr(m, "__path__", ()):
            if os.path.isdir(d):
                out |= {f.split(".")[0] for f in os.listdir(d)}
        return out

    def exists(self, mod):
        top = mod.split(".")[0]
        if top in STDLIB:
            try:
                importlib.import_module(mod)
                return True
            except ImportError:
                return False if "." not in mod else None
            except Exception:
                return None
        for s in SITE:
            p = os.path.join(s, *mod.split("."))
            d = os.path.dirname(p)
            if os.path.isdir(p) or os.path.isfile(p + ".py") or os.path.isfile(p + ".pyi"):
                return True
            if os.path.isdir(d) and any(x.startswith(os.path.basename(p) + ".") for x in os.listdir(d)):
                return True
        return None if "." not in mod else (False if self.names(mod.rsplit(".", 1)[0]) is not None else None)

    def parse(self, path, mod, depth):
        if depth > 6:
            return None
        try:
            with open(path, encoding="utf-8") as h:
                tree = ast.parse(h.read())
        except Exception:
            return None
        out = set(BUILTINS)
        pkg = os.path.basename(path).startswith("__init__")
        if pkg:
            for f in os.listdir(os.path.dirname(path)):
                out.add(f.split(".")[0])
        closed = [True]

        def visit(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    if s.name == "__getattr__":
                        closed[0] = False
                    out.add(s.name)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        out.add(a.asname or a.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    for a in s.names:
                        if a.name == "*":
                            base = s.module or ""
                            if s.level:
                                parts = mod.split(".")
                                parts = parts[:len(parts) - s.level + (1 if pkg else 0)]
                                base = ".".join(parts + ([base] if base else []))
                            sub = self.names(base, depth + 1)
                            if sub is None:
                                closed[0] = False
                            else:
                                out.update(sub)
                        else:
                            out.add(a.asname or a.name)
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                out.add(n.id)
                            elif isinstance(n, ast.Subscript) and "globals" in ast.dump(n):
                                closed[0] = False
                    for n in ast.walk(s):
                        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                            out.add(n.value)
                elif isinstance(s, ast.Expr):
                    if "globals()" in ast.unparse(s):
                        closed[0] = False
                elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    for part in ("body", "orelse", "finalbody"):
                        visit(getattr(s, part, []))
                    for h in getattr(s, "handlers", []):
                        visit(h.body)
                    if isinstance(s, ast.For):
                        for n in ast.walk(s.target):
                            if isinstance(n, ast.Name):
                                out.add(n.id)
        visit(tree.body)
        return out if closed[0] else None


# ------------------------------------------------------------------------------------------------ light-weight types
class Types:
    """flow-insensitive classes of expressions, from annotations, constructors and attributes"""

    def __init__(self, prog):
        self.prog = prog
        self.attr_cache, self.busy = {}, set()
        self.env_cache = {}

    def ann(self, node, module):
        """class named by an annotation; ('seq', class) for sequences of it"""
        if node is None:
            return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(node, (ast.Name, ast.Attribute)):
            r = self.global_(node, module)
            return r[1] if r and r[0] == "class" else None
        if isinstance(node, ast.Subscript):
            base = ast.unparse(node.value).split(".")[-1]
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            if base == "Optional":
                return self.ann(args[0], module)
            if base in ("Tuple", "tuple") and len(args) > 1 and not (isinstance(args[1], ast.Constant) and args[1].value is Ellipsis):
                return ("tup", tuple(self.ann(x, module) for x in args))
            if base in ("Sequence", "List", "Tuple", "Iterable", "list", "tuple", "Iterator", "Deque", "Set", "FrozenSet", "set",
                        "Generator", "Collection"):
                x = self.ann(args[0], module)
                return ("seq", x) if x is not None else None
            if base in ("Dict", "dict", "Mapping", "OrderedDict", "MutableMapping", "DefaultDict") and len(args) == 2:
                return ("map", self.ann(args[0], module), self.ann(args[1], module))
            if base == "Type":
                return None
        return None

    def global_(self, node, module):
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if not isinstance(node, ast.Name):
            return None
        r = self.prog.lookup(module, node.id)
        for p in reversed(parts):
            if r is None:
                return None
            if r[0] == "module":
                r = self.prog.resolve(r[1].name + "." + p)
            elif r[0] == "ext":
                r = ("ext", r[1] + "." + p)
            else:
                return None
        return r

    def env(self, f):
        """types of the parameters and of locals that are assigned exactly one typed value"""
        if f.node in self.env_cache:
            return self.env_cache[f.node]
        e = {}
        self.env_cache[f.node] = e
        cls = owner(f)
        for n, a in f.annotations().items():
            t = self.ann(a, f.module)
            if t is not None:
                e[n] = t
        pos = f.params()[0]
        if f.cls is not None and f.kind == "function" and pos:
            e[pos[0]] = f.cls
        assigned = {}
        for n in walk_local(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                assigned.setdefault(n.targets[0].id, []).append(n.value)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple):
                for path, x in tuple_targets(n.targets[0]):
                    assigned.setdefault(x.id, []).append(("part", n.value, path))
            elif isinstance(n, (ast.For, ast.comprehension)):
                for path, x in tuple_targets(n.target):
                    assigned.setdefault(x.id, []).append(("elem", n.iter, path))
            elif isinstance(n, (ast.Name,)) and isinstance(n.ctx, ast.Store):
                assigned.setdefault(n.id, []).append(n)
        for name, vals in assigned.items():
            real = [v for v in vals if not (isinstance(v, ast.Name) and isinstance(v.ctx, ast.Store))]
            stores_ = [v for v in vals if isinstance(v, ast.Name) and isinstance(v.ctx, ast.Store)]
            if name in e:
                del e[name]
                continue
            if len(real) == 1 and len(stores_) <= 1:
                v = real[0]
                if isinstance(v, tuple):
                    t = self.of(v[1], f) if v[0] == "part" else self.element(self.of(v[1], f))
                    for k in v[2]:
                        t = t[1][k] if isinstance(t, tuple) and t[0] == "tup" and k < len(t[1]) else \
                            t[1] if isinstance(t, tuple) and t[0] == "seq" else None
                else:
                    t = self.of(v, f)
                if t is not None:
                    e[name] = t
        return e

    def of(self, node, f):
        """Class | ('seq', Class) | None"""
        key = (id(node), f.node)
        if key in self.busy:
            return None
        self.busy.add(key)
        try:
            return self.of_(node, f)
        finally:
            self.busy.discard(key)

    def of_(self, node, f):
        if isinstance(node, ast.Name):
            e = self.env(f)
            if node.id in e:
                return e[node.id]
            if f.outer is not None and node.id not in local_names(f.node):
                return None
            return None
        if isinstance(node, ast.Attribute):
            t = self.of(node.value, f)
            if isinstance(t, Class):
                return self.attr(t, node.attr)
            return None
        if isinstance(node, ast.Subscript):
            t = self.of(node.value, f)
            if isinstance(t, tuple) and t[0] == "map":
                return t[2]
            if isinstance(t, tuple) and t[0] == "tup":
                if isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, int) and -len(t[1]) <= node.slice.value < len(t[1]):
                    return t[1][node.slice.value]
                return None
            if isinstance(t, tuple) and not isinstance(node.slice, ast.Slice):
                return t[1]
            return t if isinstance(t, tuple) else None
        if isinstance(node, (ast.List, ast.Tuple, ast.Set)) and isinstance(node.ctx if hasattr(node, "ctx") else ast.Load(), ast.Load):
            ts = [self.of(x, f) for x in node.elts]
            if isinstance(node, ast.Tuple):
                return ("tup", tuple(ts)) if any(x is not None for x in ts) else None
            return ("seq", ts[0]) if ts and ts[0] is not None and all(x == ts[0] for x in ts) else None
        if isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            t = self.of(node.elt, f)
            return ("seq", t) if t is not None else None
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ITERS and \
                node.func.id not in local_names(f.node) and self.prog.lookup(f.module, node.func.id) is None:
            ts = [self.element(self.of(a, f)) for a in node.args if not isinstance(a, ast.Starred)]
            if not ts or len(ts) != len(node.args):
                return None
            if node.func.id == "enumerate":
                return ("seq", ("tup", (None, ts[0])))
            if node.func.id == "zip":
                return ("seq", ("tup", tuple(ts)))
            if node.func.id == "filter":
                return ("seq", ts[-1]) if ts[-1] is not None else None
            if node.func.id in ("next", "max", "min"):
                return ts[0] if len(node.args) == 1 else None
            return ("seq", ts[0]) if ts[0] is not None else None
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("items", "values", "keys", "get", "pop",
                                                                                                      "copy", "popleft"):
            t = self.of(node.func.value, f)
            if isinstance(t, tuple) and t[0] == "map":
                a = node.func.attr
                return {"items": ("seq", ("tup", t[1:])), "values": ("seq", t[2]), "keys": ("seq", t[1]), "copy": t}.get(a, t[2] if a == "pop" and len(node.args) == 1 else None)
            if isinstance(t, tuple) and t[0] == "seq" and node.func.attr in ("pop", "popleft"):
                return t[1]
            if isinstance(t, tuple):
                return None
        if isinstance(node, ast.IfExp) or isinstance(node, ast.BoolOp) and isinstance(node.op, ast.Or):
            alts = [x for x in ([node.body, node.orelse] if isinstance(node, ast.IfExp) else node.values)
                    if not is_none_node(x) and not (isinstance(x, (ast.List, ast.Tuple)) and not x.elts or isinstance(x, ast.Dict) and not x.keys)]
            ts = [self.of(x, f) for x in alts]
            return ts[0] if ts and all(x == ts[0] for x in ts) else None
        if isinstance(node, ast.Call):
            r = self.callee(node, f)
            if r is None:
                return None
            if r[0] == "class":
                return r[1]
            if r[0] == "func":
                return self.ann(r[1].node.returns, r[1].module) if getattr(r[1].node, "returns", None) is not None else None
        return None

    @staticmethod
    def element(t):
        if isinstance(t, tuple) and t[0] == "seq":
            return t[1]
        if isinstance(t, tuple) and t[0] == "map":
            return t[1]
        if isinstance(t, tuple) and t[0] == "tup" and t[1] and all(x == t[1][0] for x in t[1]):
            return t[1][0]
        return None

    def callee(self, node, f):
        fn_ = node.func
        if isinstance(fn_, ast.Name) and fn_.id not in local_names(f.node) and fn_.id not in f.annotations():
            return self.prog.lookup(f.module, fn_.id)
        if isinstance(fn_, ast.Attribute):
            t = self.of(fn_.value, f)
            if isinstance(t, Class):
                m = self.prog.method(t, fn_.attr)
                return ("func", m) if m else None
            root = fn_
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in local_names(f.node) and root.id not in f.annotations():
                return self.global_(fn_, f.module)
        return None

    def attr(self, cls, name):
        key = (cls.name, cls.module.name, name)
        if key in self.attr_cache:
            return self.attr_cache[key]
        self.attr_cache[key] = None
        t = None
        g = self.prog.getter(cls, name)
        if g is not None:
            t = self.ann(g.node.returns, g.module)
            if t is None:
                rets = [n.value for n in walk_local(g.node) if isinstance(n, ast.Return) and n.value is not None]
                if len(rets) == 1:
                    t = self.of(rets[0], g)
        else:
            found = []
            for k in self.prog.mro(cls):
                for m in funcs_of(k):
                    for n in walk_local(m.node):
                        if isinstance(n, ast.Assign):
                            for x in n.targets:
                                if is_self_attr(x, m, name):
                                    found.append(self.of(n.value, m) if not is_none_node(n.value) else "none")
                        elif isinstance(n, ast.AnnAssign) and is_self_attr(n.target, m, name):
                            found.append(self.ann(n.annotation, m.module))
            real = [x for x in found if x != "none"]
            if real and all(x == real[0] for x in real):
                t = real[0]
        self.attr_cache[key] = t
        return t


ITERS = ("enumerate", "zip", "reversed", "sorted", "list", "tuple", "set", "iter", "next", "filter", "max", "min", "frozenset")


def tuple_targets(t, path=()):
    """(path, name) of the names bound by an assignment target"""
    if isinstance(t, ast.Name):
        yield path, t
    elif isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts):
        for k, x in enumerate(t.elts):
            yield from tuple_targets(x, path + (k,))


def is_none_node(n):
    return isinstance(n, ast.Constant) and n.value is None


def is_self_attr(x, m, name=None):
    pos = m.params()[0]
    return isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and pos and x.value.id == pos[0] and \
        m.cls is not None and m.kind == "function" and (name is None or x.attr == name)


def funcs_of(c):
    seen = []
    for d in (c.methods, c.getters, c.setters):
        for f in d.values():
            if f not in seen:
                seen.append(f)
    return seen


def owner(f):
    return f.cls


_locals = {}


def local_names(node):
    if id(node) not in _locals:
        out = set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            out.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                out.add(x.arg)
        for n in walk_local(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for y in n.names:
                    out.add(y.asname or y.name.split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
        _locals[id(node)] = (out, node)
    return _locals[id(node)][0]


# ------------------------------------------------------------------------------------------------ the rules
class Names:
    def __init__(self, ctx):
        self.ctx, self.prog, self.rep = ctx, ctx.prog, ctx.rep
        self.ext = External()
        self.types = Types(ctx.prog)
        self.hints = {}

    def loc(self, m, node, f=None):
        return (m.rel, getattr(node, "lineno", 0), f.qual if f is not None else "module")

    # -- global names
    def module_names(self, m):
        out = set(m.funcs) | set(m.classes) | set(m.imports) | set(m.consts) | BUILTINS
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Global):
                out |= set(s.names)
        for n in ast.walk(ast.Module([x for x in m.tree.body if not isinstance(x, (ast.FunctionDef, ast.ClassDef))], [])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
        for s in m.star_imports:
            r = self.prog.resolve(s)
            if r[0] == "module":
                out |= self.module_names(r[1])
            else:
                x = self.ext.names(s)
                if x is None:
                    return None
                out |= x
        return out

    def undefined(self, m):
        defined = self.module_names(m)
        if defined is None:
            self.rep.unk("names-defined", m.rel, "names of a star import are not known")
            return
        table = symtable.symtable(m.src, m.rel, "exec")
        missing, total = set(), [0]

        def visit(t, classes):
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                if t.get_type() == "module":
                    glob = not (s.is_assigned() or s.is_imported() or s.is_namespace())
                elif t.get_type() == "class":
                    glob = s.is_global() or (not s.is_assigned() and not s.is_imported() and not s.is_namespace() and not s.is_free())
                else:
                    glob = s.is_global()
                if glob:
                    total[0] += 1
                    if s.get_name() not in defined:
                        missing.add((s.get_name(), t.get_name() if t.get_type() != "module" else "module"))
            for c in t.get_children():
                visit(c, classes)
        visit(table, ())
        for name, where_ in sorted(missing):
            use = next((n for n in ast.walk(m.tree) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)), None)
            self.rep.bad("names-defined", "%s:%s:%s" % (m.rel, where_, name), "the name %s is not defined" % name,
                         (m.rel, use.lineno if use else 0, where_))
        self.rep.ok("names-defined", m.rel, None, "%d global references" % total[0])

    def imports(self, m):
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.imported(m, s, a.name, None)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    base = PKG + ("." + base if base else "")
                for a in s.names:
                    if a.name != "*":
                        self.imported(m, s, base, a.name)

    def guarded(self, m, node):
        """inside try/except ImportError (optional dependency)"""
        for t in ast.walk(m.tree):
            if isinstance(t, ast.Try) and any(node is x for x in ast.walk(t)):
                return True
        return False

    def imported(self, m, s, base, name):
        r = self.prog.resolve(base)
        if r[0] == "module":
            if name is not None:
                full = self.prog.resolve(base + "." + name)
                ok = full[0] != "missing"
                self.rep.check(ok, "imports", "%s:%s.%s" % (m.rel, base, name), "%s has no %s" % (base, name), self.loc(m, s))
            return
        if base.split(".")[0] == PKG:
            if r[0] == "class" or r[0] == "func":
                return
            self.rep.check(False, "imports", "%s:%s" % (m.rel, base), "the module %s does not exist" % base, self.loc(m, s))
            return
        if self.guarded(m, s):
            return
        e = self.ext.exists(base)
        if e is False:
            self.rep.bad("imports", "%s:%s" % (m.rel, base), "the module %s does not exist" % base, self.loc(m, s))
            return
        if name is not None:
            names = self.ext.names(base)
            if names is not None:
                self.rep.check(name in names, "imports", "%s:%s.%s" % (m.rel, base, name), "%s has no %s" % (base, name), self.loc(m, s))

    # -- attributes
    def known_attrs(self, c, family=True):
        """attributes of a class of the package; None if it inherits from something unknown"""
        out = set(OBJECT)
        todo = list(self.prog.mro(c))
        for k in todo:
            for b in self.prog.bases(k):
                if not isinstance(b, Class) and b.split(".")[-1] not in ("object", "Enum", "ABC", "IntEnum", "Generic", "Protocol", "Exception",
                                                                        "NamedTuple", "RuntimeError", "ValueError"):
                    return None
                if not isinstance(b, Class) and b.split(".")[-1] in ("Enum", "IntEnum"):
                    out |= {"name", "value"}
                if not isinstance(b, Class) and b.split(".")[-1] == "NamedTuple":
                    out |= set(dir(tuple)) | {"_fields", "_replace", "_asdict"}
                if not isinstance(b, Class) and b.split(".")[-1].endswith(("Error", "Exception")):
                    out |= set(dir(Exception))
            if "__getattr__" in k.methods or "__getattribute__" in k.methods:
                return None
            for kw in k.node.keywords:
                if kw.arg == "metaclass":
                    out |= self.meta_attrs(k, kw.value)
        if family:
            todo += [x for x in self.prog.subclasses(c.name) if x not in todo]
        for k in todo:
            out |= set(k.methods) | set(k.getters) | set(k.setters) | set(k.attrs) | set(k.inner)
            for s in k.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    out.add(s.target.id)
            for f in funcs_of(k):
                pos = f.params()[0]
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        out.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "hasattr", "getattr") and \
                            len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
                        out.add(n.args[1].value)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                        return None
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and \
                            ast.unparse(n.func.value).endswith("__dict__"):
                        return None
        return out

    def meta_attrs(self, k, node):
        r = self.types.global_(node, k.module)
        if r and r[0] == "class":
            out = set()
            for x in self.prog.mro(r[1]):
                out |= set(x.methods) | set(x.getters) | set(x.attrs)
                for f in funcs_of(x):
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                            out.add(n.value)
            return out
        return set()

    def foreign_stores(self):
        """attribute names stored on objects from outside their class anywhere in the package"""
        out = set()
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                    out.add(n.attr)
        return out

    def attributes(self):
        foreign = self.foreign_stores()
        cache = {}
        for f in self.prog.all_funcs():
            for n in walk_local(f.node):
                if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load):
                    continue
                self.module_attr(f, n)
                t = self.types.of(n.value, f)
                if not isinstance(t, Class):
                    continue
                self.sites += 1
                if t not in cache:
                    cache[t] = self.known_attrs(t)
                known = cache[t]
                if known is None:
                    continue
                ok = n.attr in known or n.attr in foreign or guarded_attr(f, n)
                self.rep.check(ok, "attributes", "%s:%s.%s" % (f.module.rel, t.name, n.attr) if not ok else f.qual,
                               "objects of class %s have no attribute %s" % (t.name, n.attr), self.loc(f.module, n, f))

    def module_attr(self, f, n):
        root = n
        while isinstance(root, ast.Attribute):
            root = root.value
        if not isinstance(root, ast.Name) or root.id in local_names(f.node):
            return
        o = f.outer
        while o is not None:
            if root.id in local_names(o.node):
                return
            o = o.outer
        self.module_attr_(f.module, n, f)

    def module_attr_(self, m, n, f):
        base = self.types.global_(n.value, m) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
        if base is None:
            return
        if base[0] == "module":
            r = self.prog.resolve(base[1].name + "." + n.attr)
            self.rep.check(r[0] != "missing" or n.attr.startswith("__"), "module-attributes", "%s:%s.%s" % (m.rel, base[1].name, n.attr),
                           "the module %s has no %s" % (base[1].name, n.attr), self.loc(m, n, f))
        elif base[0] == "ext":
            if "." not in base[1] and base[1] not in m.imports.values():
                pass
            names = self.ext.names(base[1])
            if names is not None:
                self.rep.check(n.attr in names, "module-attributes", "%s:%s.%s" % (m.rel, base[1], n.attr),
                               "%s has no %s" % (base[1], n.attr), self.loc(m, n, f))
        elif base[0] == "class":
            known = self.known_attrs(base[1])
            if known is not None:
                self.rep.check(n.attr in known or n.attr in ("mro",), "attributes", "%s:%s.%s" % (m.rel, base[1].name, n.attr),
                               "the class %s has no attribute %s" % (base[1].name, n.attr), self.loc(m, n, f))

    # -- calls
    def calls(self):
        for f in self.prog.all_funcs():
            for n in walk_local(f.node):
                if isinstance(n, ast.Call):
                    self.call(f, n)
        for m in self.prog.modules.values():
            for s in m.tree.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    continue
                for n in ast.walk(s):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                        r = self.prog.lookup(m, n.func.id)
                        if r and r[0] in ("func", "class"):
                            self.bind(m, n, r, None)

    def call(self, f, n):
        fn_ = n.func
        if isinstance(fn_, ast.Name):
            name = fn_.id
            o, scope = f, None
            while o is not None:
                if name in local_names(o.node):
                    scope = o
                    break
                o = o.outer
            if scope is not None:
                inner = [x for x in walk_local(scope.node) if isinstance(x, ast.FunctionDef) and x.name == name]
                stores_ = [x for x in walk_local(scope.node) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
                if len(inner) == 1 and not stores_ and name not in scope.annotations():
                    self.bind(f.module, n, ("func", Func(inner[0], f.module, None, scope)), f)
                return
            r = self.prog.lookup(f.module, name)
            if r and r[0] in ("func", "class"):
                self.bind(f.module, n, r, f)
            return
        if isinstance(fn_, ast.Attribute):
            v = fn_.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                cls = enclosing_class(f)
                if cls is None:
                    return
                ext = any(not isinstance(b, Class) and b not in ("object",) for k in self.prog.mro(cls) for b in self.prog.bases(k))
                m = self.prog.method(cls, fn_.attr, after=cls)
                if m is not None:
                    self.bind(f.module, n, ("func", m), f, bound=True)
                elif not ext and fn_.attr not in OBJECT and not self.meta_attrs_of(cls, fn_.attr) and \
                        not self.prog.getter(cls, fn_.attr, after=cls):
                    self.rep.bad("attributes", "%s:super.%s" % (f.qual, fn_.attr), "no base class of %s has a method %s" % (cls.name, fn_.attr),
                                 self.loc(f.module, n, f))
                return
            t = self.types.of(v, f)
            if isinstance(t, Class):
                m = self.prog.method(t, fn_.attr)
                cand = [x for x in ([m] if m else []) + [k.methods[fn_.attr] for k in self.prog.subclasses(t.name) if fn_.attr in k.methods]]
                if self.prog.getter(t, fn_.attr) is not None:
                    g = self.prog.getter(t, fn_.attr)
                    self.property_called(f, n, t, g)
                    return
                if m is not None:
                    self.bind(f.module, n, ("func", m), f, bound=True)
                elif cand:
                    if not any(self.fits(n, x, True) in (None, "") for x in cand):
                        self.bind(f.module, n, ("func", cand[0]), f, bound=True)
                return
            root = fn_
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in local_names(f.node):
                r = self.types.global_(fn_, f.module)
                if r is None and isinstance(v, (ast.Name, ast.Attribute)):
                    b = self.types.global_(v, f.module)
                    if b and b[0] == "class":
                        m = self.prog.method(b[1], fn_.attr)
                        if m is not None:
                            self.bind(f.module, n, ("func", m), f, bound=m.kind == "classmethod")
                    return
                if r and r[0] in ("func", "class"):
                    self.bind(f.module, n, r, f)

    def meta_attrs_of(self, cls, name):
        for k in self.prog.mro(cls):
            for kw in k.node.keywords:
                if kw.arg == "metaclass" and name in self.meta_attrs(k, kw.value):
                    return True
        return False

    def property_called(self, f, n, t, g):
        """the value of a property is called: fine only if it may be callable"""
        rets = [x.value for x in walk_local(g.node) if isinstance(x, ast.Return)]
        ann = g.node.returns
        if ann is not None and ast.unparse(ann) in ("str", "int", "float", "bool", "pd.Series", "pd.DataFrame", "list", "dict", "tuple"):
            self.rep.bad("calls", "%s:%s.%s" % (f.qual, t.name, g.name), "the property %s.%s (%s) is called" % (t.name, g.name, ast.unparse(ann)),
                         self.loc(f.module, n, f))

    def bind(self, m, n, target, f, bound=None):
        kind, x = target
        if kind == "class":
            c = x
            for k in self.prog.mro(c):
                for b in self.prog.bases(k):
                    if not isinstance(b, Class) and b not in ("object",):
                        if "__init__" not in {y for z in self.prog.mro(c) for y in z.methods}:
                            return
                if any(kw.arg == "metaclass" for kw in k.node.keywords) and any(
                        "__call__" in z.methods for kw in k.node.keywords for r in [self.types.global_(kw.value, k.module)]
                        if r and r[0] == "class" for z in [r[1]]):
                    return
            if c.node.decorator_list:
                return
            fn_ = self.prog.method(c, "__new__") or self.prog.method(c, "__init__")
            if self.prog.method(c, "__init__") is not None:
                fn_ = self.prog.method(c, "__init__")
            if fn_ is None:
                if n.args or n.keywords:
                    self.rep.bad("calls", "%s:%s" % (f.qual if f else m.rel, c.name), "%s takes no arguments" % c.name, self.loc(m, n, f))
                return
            err = self.fits(n, fn_, True)
            what = c.name
        else:
            fn_ = x
            err = self.fits(n, fn_, fn_.cls is not None and fn_.kind != "staticmethod" if bound is None else
                            (bound and fn_.kind != "staticmethod"))
            if bound is None and fn_.cls is not None and fn_.kind == "function":
                return      # Class.method(obj, ...)
            what = fn_.qual
        if err is None:
            return
        self.sites += 1
        self.rep.check(err == "", "calls", "%s:%s" % (f.qual if f else m.rel, what) if err else (f.qual if f else m.rel),
                       "the call of %s %s" % (what, err), self.loc(m, n, f))

    def fits(self, n, fn_, bound):
        """'' if the arguments fit, a message if not, None if not decidable"""
        for d in getattr(fn_.node, "decorator_list", []):
            s = ast.unparse(d)
            if s.split(".")[-1] not in ("staticmethod", "classmethod", "contextmanager", "abstractmethod"):
                return None
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            star = True
        else:
            star = False
        a = fn_.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        ponly = {x.arg for x in a.posonlyargs}
        need = pos[:len(pos) - len(a.defaults)]
        kwo = [x.arg for x in a.kwonlyargs]
        kneed = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        if bound and pos:
            need = need[1:]
            pos = pos[1:]
        plain = [x for x in n.args if not isinstance(x, ast.Starred)]
        if len(plain) > len(pos) and a.vararg is None:
            return "passes %d positional arguments, %d are accepted" % (len(plain), len(pos))
        given = set(pos[:len(plain)]) if not any(isinstance(x, ast.Starred) for x in n.args) else set()
        for k in n.keywords:
            if k.arg is None:
                continue
            if k.arg not in pos and k.arg not in kwo and a.kwarg is None:
                return "passes the unknown argument %s" % k.arg
            if k.arg in given:
                return "passes the argument %s twice" % k.arg
            given.add(k.arg)
        if not star:
            miss = [x for x in need + kneed if x not in given]
            if miss:
                return "lacks the argument %s" % ", ".join(miss)
        return ""

    # -- results of in-place operations
    def inplace(self):
        for f in self.prog.all_funcs():
            used = value_uses(f.node)
            for n in walk_local(f.node):
                if not isinstance(n, ast.Call) or id(n) not in used:
                    continue
                loc = self.loc(f.module, n, f)
                if isinstance(n.func, ast.Attribute):
                    kw = {k.arg: k.value for k in n.keywords}
                    ip = kw.get("inplace")
                    name = n.func.attr
                    bad = isinstance(ip, ast.Constant) and ip.value is True
                    t = self.types.of(n.func.value, f)
                    if not bad and not isinstance(t, Class):
                        lst = list_like(n.func.value, f)
                        if lst and name in ("sort", "reverse", "extend", "insert", "append", "clear", "remove"):
                            bad = True
                        elif name == "shuffle" and ast.unparse(n.func.value).split(".")[-1] == "random":
                            bad = True
                    if ip is not None or name in ("sort", "reverse", "extend", "insert", "shuffle", "append", "clear", "remove"):
                        self.rep.check(not bad, "in-place-results", "%s:%s" % (f.qual, name) if bad else f.qual,
                                       "the result of the in-place operation %s is used" % name, loc)
                r = self.types.callee(n, f)
                if r and r[0] == "func" and nothing(r[1], self.prog):
                    self.rep.bad("in-place-results", "%s:%s" % (f.qual, r[1].name), "the result of %s, which returns nothing, is used" % r[1].qual, loc)

    # -- locals
    def unassigned(self):
        for f in self.prog.all_funcs():
            loc_ = local_names(f.node) - set(f.params()[0]) - set(f.params()[1])
            bad = unreached(f.node, loc_)
            self.rep.check(not bad, "locals-assigned", f.qual if not bad else "%s:%s" % (f.qual, bad[0].id), "the local variable %s is used "
                           "before any assignment" % (bad[0].id if bad else ""), self.loc(f.module, bad[0], f) if bad else None)

    def run(self):
        self.sites = 0
        for m in self.prog.modules.values():
            self.undefined(m)
            self.imports(m)
            for s in m.tree.body:
                if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    for n in ast.walk(s):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                            self.module_attr_(m, n, None)
        self.attributes()
        self.calls()
        self.inplace()
        self.unassigned()


def enclosing_class(f):
    while f is not None:
        if f.cls is not None:
            return f.cls
        f = f.outer
    return None


def guarded_attr(f, n):
    """the attribute is only used after hasattr, or inside try/except AttributeError"""
    for x in walk_local(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) >= 2 and \
                isinstance(x.args[1], ast.Constant) and x.args[1].value == n.attr:
            return True
        if isinstance(x, ast.Try) and any(n is y for b in x.body for y in ast.walk(b)) and any(
                h.type is None or any(w in ast.unparse(h.type) for w in ("AttributeError", "Exception")) for h in x.handlers) and \
                any(h.type is not None and "AttributeError" in ast.unparse(h.type) for h in x.handlers):
            return True
    return False


def value_uses(fnode):
    """ids of the calls whose value is used"""
    out = set()
    stmt_calls = {id(s.value) for s in ast.walk(fnode) if isinstance(s, ast.Expr)}
    for n in walk_local(fnode):
        if isinstance(n, ast.Call) and id(n) not in stmt_calls:
            out.add(id(n))
    # the value of a lambda body or a bare return may be dropped by the caller: only assignments, arguments and operands count
    keep = set()
    for n in walk_local(fnode):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            if n.value is not None:
                keep.add(id(n.value))
        elif isinstance(n, ast.Call):
            keep |= {id(a) for a in n.args} | {id(k.value) for k in n.keywords}
            if isinstance(n.func, ast.Attribute):
                keep.add(id(n.func.value))
        elif isinstance(n, (ast.BinOp,)):
            keep |= {id(n.left), id(n.right)}
        elif isinstance(n, ast.Compare):
            keep |= {id(n.left)} | {id(x) for x in n.comparators}
        elif isinstance(n, ast.Subscript):
            keep.add(id(n.value))
        elif isinstance(n, (ast.For, ast.comprehension)):
            keep.add(id(n.iter))
        elif isinstance(n, (ast.List, ast.Tuple)):
            keep |= {id(x) for x in n.elts}
        elif isinstance(n, ast.Dict):
            keep |= {id(x) for x in n.values}
    return out & keep


def list_like(node, f):
    """certainly a list: a literal, list(...), or a local that only ever holds lists"""
    if isinstance(node, (ast.List, ast.ListComp)):
        return True
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("list", "sorted"):
        return True
    if isinstance(node, ast.Name):
        vals = [n.value for n in walk_local(f.node) if isinstance(n, ast.Assign) and
                any(isinstance(t, ast.Name) and t.id == node.id for t in n.targets)]
        return bool(vals) and node.id not in f.params()[0] and all(
            isinstance(v, (ast.List, ast.ListComp)) or (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("list", "sorted"))
            for v in vals)
    return False


def nothing(f, prog):
    """the function (and none of its overrides) never returns a value"""
    def silent(x):
        if x.is_generator or x.node.decorator_list and x.prop is None and x.kind == "function":
            return False
        if getattr(x.node, "returns", None) is not None and not is_none_node(x.node.returns):
            return False
        rets = [n for n in walk_local(x.node) if isinstance(n, ast.Return) and n.value is not None and not is_none_node(n.value)]
        if rets:
            return False
        body = [s for s in x.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return not all(isinstance(s, (ast.Raise, ast.Pass)) for s in body)
    if not silent(f):
        return False
    if f.cls is not None:
        for k in prog.subclasses(f.cls.name):
            g = k.methods.get(f.name)
            if g is not None and g is not f and not silent(g):
                return False
    return True


def unreached(fnode, names):
    """uses of locals that no assignment can have reached (may-assigned analysis)"""
    bad = []

    def expr(n, have):
        for x in evaluated(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names and x.id not in have and x.id not in comp_names(n):
                bad.append(x)
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                have.add(x.target.id)

    def evaluated(n):
        stack = [n]
        while stack:
            x = stack.pop()
            yield x
            if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))

    def comp_names(n):
        return {y.id for x in ast.walk(n) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}

    def bind(t, have):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                have.add(x.id)
            elif isinstance(x, (ast.Subscript, ast.Attribute)):
                expr(x.value, have)

    def block(stmts, have):
        for s in stmts:
            one(s, have)

    def stored(nodes):
        out = set()
        for st in nodes:
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    out.add(x.name)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    out |= {y.asname or y.name.split(".")[0] for y in x.names}
        return out

    def one(s, have):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            have.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for y in s.names:
                have.add(y.asname or y.name.split(".")[0])
        elif isinstance(s, ast.Assign):
            expr(s.value, have)
            for t in s.targets:
                bind(t, have)
        elif isinstance(s, ast.AugAssign):
            expr(s.value, have)
            if isinstance(s.target, ast.Name) and s.target.id in names and s.target.id not in have:
                bad.append(s.target)
            bind(s.target, have)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                expr(s.value, have)
                bind(s.target, have)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            expr(s.iter, have)
            bind(s.target, have)
            have |= stored(s.body) if loops_back(s) else set()
            block(s.body, have)
            block(s.orelse, have)
        elif isinstance(s, ast.While):
            have |= stored(s.body)
            expr(s.test, have)
            block(s.body, have)
            block(s.orelse, have)
        elif isinstance(s, ast.If):
            expr(s.test, have)
            a, b = set(have), set(have)
            block(s.body, a)
            block(s.orelse, b)
            have |= a | b
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                expr(it.context_expr, have)
                if it.optional_vars is not None:
                    bind(it.optional_vars, have)
            block(s.body, have)
        elif isinstance(s, ast.Try):
            block(s.body, have)
            for h in s.handlers:
                c = set(have)
                if h.name:
                    c.add(h.name)
                block(h.body, c)
                have |= c
            block(s.orelse, have)
            block(s.finalbody, have)
        elif isinstance(s, (ast.Global, ast.Nonlocal)):
            have |= set(s.names)
        elif isinstance(s, ast.Match):
            expr(s.subject, have)
            for c in s.cases:
                have |= {x.name for x in ast.walk(c.pattern) if getattr(x, "name", None)}
                block(c.body, have)
        elif isinstance(s, ast.Delete):
            pass
        else:
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    expr(x, have)

    def loops_back(s):
        return True
    if not isinstance(fnode.body, list):
        return []
    a = fnode.args
    have = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    block(fnode.body, have)
    return bad


def c29(ctx):
    nm = Names(ctx)
    nm.run()
    ctx.rep.stats["functions"] |= {(f.module.rel, f.qual) for f in ctx.prog.all_funcs()}
    ctx.rep.stats["calls"] += nm.sites
    for r, n in (("names-defined", 10), ("attributes", 200), ("calls", 50), ("module-attributes", 100), ("imports", 30)):
        ctx.rep.need(r, n)


RULES = {
    "C29": (c29, "Scope analysis (symbol tables) of every module, attribute existence by class and module (with library names read from "
                 "stubs and sources), binding of call arguments to the signatures of the package's functions, use of results of "
                 "functions that return nothing, and use of locals before assignment.",
            "scope, attribute and call-signature analysis over the syntax tree of every module (static analysis)"),
}

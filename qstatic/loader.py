"""Parses the package and resolves modules, imports, classes, inheritance, methods and properties."""
import ast, os, warnings

REPO = os.environ.get("QTUNE_REPO", "/repo")
PKG = "qtune"


class AnalysisBroken(Exception):
    """A public anchor vanished: the check gives no verdict."""


class Func:
    def __init__(self, node, module, cls=None, outer=None):
        self.node, self.module, self.cls, self.outer = node, module, cls, outer
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        self.kind = "function"
        self.prop = None
        for d in getattr(node, "decorator_list", []):
            if isinstance(d, ast.Name) and d.id in ("property", "cached_property"):
                self.prop = "get"
            elif isinstance(d, ast.Attribute) and d.attr == "cached_property":
                self.prop = "get"
            elif isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                self.prop = {"setter": "set", "getter": "get", "deleter": "del"}[d.attr]
            elif isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod"):
                self.kind = d.id
        self.contextmanager = any(
            (isinstance(d, ast.Name) and d.id == "contextmanager") or
            (isinstance(d, ast.Attribute) and d.attr == "contextmanager")
            for d in getattr(node, "decorator_list", []))
        self.is_generator = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_local(node))

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    @property
    def where(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def params(self):
        a = self.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        kwonly = [x.arg for x in a.kwonlyargs]
        for n, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[n] = d
        return pos, kwonly, defaults, (a.vararg.arg if a.vararg else None), (a.kwarg.arg if a.kwarg else None)

    def annotations(self):
        a = self.node.args
        return {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}


def walk_local(fn):
    """Nodes of a function without those of nested functions, lambdas and classes."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


class Class:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods, self.getters, self.setters, self.attrs, self.inner = {}, {}, {}, {}, {}
        for s in node.body:
            self._collect(s)

    def _collect(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(s, self.module, self)
            if f.prop == "get":
                self.getters[f.name] = f
            elif f.prop == "set":
                self.setters[f.name] = f
            elif f.prop is None:
                self.methods[f.name] = f
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self._class_attr(t.id, s.value)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            if s.value is not None:
                self._class_attr(s.target.id, s.value)
        elif isinstance(s, ast.ClassDef):
            self.inner[s.name] = s
        elif isinstance(s, (ast.If, ast.Try)):
            for x in s.body:
                self._collect(x)

    def _class_attr(self, name, value):
        # name = property(fget, fset)
        if isinstance(value, ast.Call) and isinstance(value.func, ast.Name) and value.func.id == "property":
            args = {k.arg: k.value for k in value.keywords}
            for k, v in zip(("fget", "fset"), value.args):
                args[k] = v
            g, s = args.get("fget"), args.get("fset")
            if isinstance(g, ast.Name) and g.id in self.methods:
                self.getters[name] = self.methods[g.id]
            if isinstance(s, ast.Name) and s.id in self.methods:
                self.setters[name] = self.methods[s.id]
            if name in self.getters:
                return
        self.attrs[name] = value

    def is_enum(self, prog):
        return any("Enum" in ast.unparse(b) for b in self.node.bases)


class Module:
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.tree = ast.parse(src, path)
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        self.star_imports = []

    def collect(self):
        def visit(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.funcs[s.name] = Func(s, self)
                elif isinstance(s, ast.ClassDef):
                    self.classes[s.name] = Class(s, self)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                self.consts[n.id] = s.value if isinstance(t, ast.Name) else None
                elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                    if isinstance(s.target, ast.Name):
                        self.consts[s.target.id] = getattr(s, "value", None)
                elif isinstance(s, (ast.If, ast.For, ast.While, ast.With)):
                    visit(s.body); visit(getattr(s, "orelse", []))
                    if isinstance(s, ast.For):
                        for n in ast.walk(s.target):
                            if isinstance(n, ast.Name):
                                self.consts[n.id] = None
                elif isinstance(s, ast.Try):
                    visit(s.body); visit(s.orelse); visit(s.finalbody)
                    for h in s.handlers:
                        visit(h.body)
        visit(self.tree.body)
        for s in ast.walk(self.tree):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                s._is_top = False
        for s in self.top_imports(self.tree.body):
            self.add_import(s, self.imports)

    def top_imports(self, stmts):
        for s in stmts:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                yield s
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                for part in ("body", "orelse", "finalbody"):
                    yield from self.top_imports(getattr(s, part, []))
                for h in getattr(s, "handlers", []):
                    yield from self.top_imports(h.body)

    def add_import(self, s, table):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    table[a.asname] = a.name
                else:
                    table[a.name.split(".")[0]] = a.name.split(".")[0]
        else:
            base = s.module or ""
            if s.level:
                base = PKG + ("." + base if base else "")
            for a in s.names:
                if a.name == "*":
                    self.star_imports.append(base)
                else:
                    table[a.asname or a.name] = (base + "." if base else "") + a.name


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        for dirpath, dirs, files in os.walk(root):
            dirs[:] = sorted(d for d in dirs if d not in ("__pycache__",))
            for f in sorted(files):
                if f.endswith(".py"):
                    path = os.path.join(dirpath, f)
                    rel = os.path.relpath(path, self.repo)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    with open(path, encoding="utf-8") as h:
                        self.modules[name] = Module(name, path, rel, h.read())
        for m in self.modules.values():
            m.collect()
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)

    # -- names -------------------------------------------------------------
    def resolve(self, dotted, depth=0):
        """A dotted global name -> ('module', m) | ('class', c) | ('func', f) | ('const', module, name) | ('ext', dotted)."""
        if depth > 8:
            return ("ext", dotted)
        if dotted in self.modules:
            return ("module", self.modules[dotted])
        if "." in dotted:
            head, tail = dotted.rsplit(".", 1)
            base = self.resolve(head, depth + 1)
            if base[0] == "module":
                m = base[1]
                if tail in m.classes:
                    return ("class", m.classes[tail])
                if tail in m.funcs:
                    return ("func", m.funcs[tail])
                if tail in m.imports:
                    return self.resolve(m.imports[tail], depth + 1)
                if tail in m.consts:
                    return ("const", m, tail)
                for s in m.star_imports:
                    r = self.resolve(s + "." + tail, depth + 1)
                    if r[0] != "ext":
                        return r
                return ("missing", dotted)
            if base[0] == "class":
                c = base[1]
                f = self.method(c, tail)
                if f:
                    return ("func", f)
                return ("ext", dotted)
        return ("ext", dotted)

    def lookup(self, module, name):
        if name in module.classes:
            return ("class", module.classes[name])
        if name in module.funcs:
            return ("func", module.funcs[name])
        if name in module.imports:
            return self.resolve(module.imports[name])
        if name in module.consts:
            return ("const", module, name)
        for s in module.star_imports:
            r = self.resolve(s + "." + name)
            if r[0] not in ("ext", "missing"):
                return r
        return None

    # -- classes -----------------------------------------------------------
    def bases(self, c):
        out = []
        for b in c.node.bases:
            try:
                d = ast.unparse(b)
            except Exception:
                continue
            parts = d.split(".")
            r = self.lookup(c.module, parts[0])
            for p in parts[1:]:
                if r is None:
                    break
                if r[0] == "module":
                    r = self.resolve(r[1].name + "." + p)
                elif r[0] == "ext":
                    r = ("ext", r[1] + "." + p)
                else:
                    r = None
            if r and r[0] == "class":
                out.append(r[1])
            else:
                out.append(r[1] if r and r[0] == "ext" else d)
        return out

    def mro(self, c):
        out = [c]
        for b in self.bases(c):
            if isinstance(b, Class):
                for x in self.mro(b):
                    if x in out:
                        out.remove(x)
                    out.append(x)
        return out

    def ext_bases(self, c):
        return [b for k in self.mro(c) for b in self.bases(k) if not isinstance(b, Class)]

    def method(self, c, name, after=None):
        seen = after is None
        for k in self.mro(c):
            if seen and name in k.methods:
                return k.methods[name]
            if k is after:
                seen = True
        return None

    def getter(self, c, name, after=None):
        seen = after is None
        for k in self.mro(c):
            if seen:
                if name in k.getters:
                    return k.getters[name]
                if name in k.methods or name in k.attrs:
                    return None
            if k is after:
                seen = True
        return None

    def setter(self, c, name, after=None):
        seen = after is None
        for k in self.mro(c):
            if seen:
                if name in k.setters:
                    return k.setters[name]
                if name in k.getters:  # overriding property without setter hides an inherited one
                    return None
            if k is after:
                seen = True
        return None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def series_names(self):
        """names of methods and properties of the package that are annotated to return a series"""
        if not hasattr(self, "_series_names"):
            out, other = set(), set()
            for m in self.modules.values():
                for c in m.classes.values():
                    for table in (c.methods, c.getters):
                        for n, f in table.items():
                            r = f.node.returns
                            if r is not None:
                                (out if ast.unparse(r).endswith("Series") else other).add(n)
            self._series_names = out - other
        return self._series_names

    def subclasses(self, name):
        base = self.classes.get(name)
        return [c for m in self.modules.values() for c in m.classes.values()
                if base is not None and base in self.mro(c)]

    def is_subclass(self, c, name):
        return any(k.name == name for k in self.mro(c))

    def cls(self, name):
        if name not in self.classes:
            raise AnalysisBroken("class %s not found" % name)
        return self.classes[name]

    def all_funcs(self):
        """Every function and method of the package, including nested ones."""
        for m in self.modules.values():
            def rec(node, cls, outer):
                for s in ast.iter_child_nodes(node):
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        f = Func(s, m, cls, outer)
                        yield f
                        yield from rec(s, cls, f)
                    elif isinstance(s, ast.ClassDef):
                        c = m.classes.get(s.name) if node is m.tree else None
                        yield from rec(s, c or Class(s, m), outer)
                    else:
                        yield from rec(s, cls, outer)
            yield from rec(m.tree, None, None)

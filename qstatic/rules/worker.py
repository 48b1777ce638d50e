"""C25: the GUI worker. The worker function and the slots are compiled to control flow graphs over the boolean flags of
the window; the product of worker and user, interleaved at every flag access, is explored to a fixpoint for every
combination of the things the flags do not determine (is there an autotuner, is the tuning complete, which operation
raises)."""
import ast
from .common import *

OPS = ("iterate", "is_tuning_complete", "append_autotuner")
LOGGING = ("logger", "_logger", "logging", "log", "_log_signal")


class NotUnderstood(Exception):
    pass


class Cfg:
    """nodes: {id: (kind, data, succ...)}"""

    def __init__(self, prog, cls):
        self.prog, self.cls = prog, cls
        self.nodes, self.n = {}, 0
        self.flags, self.events, self.threads, self.targets = set(), set(), set(), []
        self.locked = False
        for k in prog.mro(cls):
            for m in list(k.methods.values()) + list(k.setters.values()):
                for a in ast.walk(m.node):
                    if isinstance(a, ast.Assign):
                        for t in a.targets:
                            if is_self_attr(t):
                                if isinstance(a.value, ast.Constant) and isinstance(a.value.value, bool):
                                    self.flags.add(t.attr)
                                elif isinstance(a.value, ast.Call):
                                    f = ast.unparse(a.value.func).split(".")[-1]
                                    if f == "Event":
                                        self.events.add(t.attr)
                                        self.flags.add(t.attr)
                                    elif f in ("Thread", "QThread"):
                                        self.threads.add(t.attr)
        self.flaglist = sorted(self.flags)

    # -- construction
    def add(self, kind, *data):
        self.n += 1
        self.nodes[self.n] = (kind,) + data
        return self.n

    def method(self, name, nxt):
        """graph of self.<name>() with nothing bound to its parameters; exceptions leave through node 'dead'"""
        m = self.prog.method(self.cls, name)
        if m is None:
            raise NotUnderstood("no method %s" % name)
        dead = self.add("dead", m.node)
        fr = Frame(self, m, ret=nxt, dest=None, exc=lambda t: dead, depth=0)
        return fr.block(m.node.body, nxt)


def is_self_attr(t):
    return isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"


class Frame:
    count = 0

    def __init__(self, cfg, func, ret, dest, exc, depth):
        Frame.count += 1
        self.cfg, self.func, self.ret, self.dest, self.exc, self.depth = cfg, func, ret, dest, exc, depth
        self.id = Frame.count
        self.brk = self.cont = None
        self.final = []

    def local(self, name):
        return (self.id, name)

    def sub(self, **kw):
        f = Frame.__new__(Frame)
        f.__dict__.update(self.__dict__)
        f.__dict__.update(kw)
        return f

    # -- statements
    def block(self, stmts, nxt):
        for s in reversed(stmts):
            nxt = self.stmt(s, nxt)
        return nxt

    def stmt(self, s, nxt):
        add = self.cfg.add
        if isinstance(s, ast.Expr):
            return self.value(s.value, nxt, None)
        if isinstance(s, ast.Assign):
            return self.assign(s.targets, s.value, nxt)
        if isinstance(s, ast.AnnAssign):
            return self.assign([s.target], s.value, nxt) if s.value is not None else nxt
        if isinstance(s, ast.AugAssign):
            if is_self_attr(s.target) and s.target.attr in self.cfg.flags:
                raise NotUnderstood("augmented assignment of a flag")
            if isinstance(s.target, ast.Name):
                nxt = add("set", ("local", self.local(s.target.id)), "?", nxt)
            return self.value(s.value, nxt, None)
        if isinstance(s, ast.If):
            return self.cond(s.test, self.block(s.body, nxt), self.block(s.orelse, nxt))
        if isinstance(s, ast.While):
            head = add("nop", None)
            after = self.block(s.orelse, nxt)
            b = self.sub(brk=nxt, cont=head)
            body = b.block(s.body, head)
            self.cfg.nodes[head] = ("nop", self.cond(s.test, body, after))
            return head
        if isinstance(s, (ast.For, ast.AsyncFor)):
            if self.relevant(s):
                if isinstance(s.iter, (ast.Tuple, ast.List)) and len(s.iter.elts) <= 4 and isinstance(s.target, ast.Name):
                    nxt = self.block(s.orelse, nxt)
                    for e in reversed(s.iter.elts):
                        body = self.sub(brk=nxt, cont=nxt).block(s.body, nxt)
                        nxt = self.value(e, body, ("local", self.local(s.target.id)))
                    return nxt
                raise NotUnderstood("for loop around the worker's operations")
            return nxt
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                if "lock" in ast.unparse(i.context_expr).lower() or "mutex" in ast.unparse(i.context_expr).lower():
                    self.cfg.locked = True
                elif self.relevant(s):
                    raise NotUnderstood("with statement %s" % ast.unparse(i.context_expr))
            return self.block(s.body, nxt)
        if isinstance(s, ast.Try):
            return self.try_(s, nxt)
        if isinstance(s, ast.Return):
            tgt = self.leave(self.ret)
            if s.value is None:
                return tgt if self.dest is None else add("set", self.dest, None, tgt)
            return self.value(s.value, tgt, self.dest)
        if isinstance(s, ast.Raise):
            return self.exc("?")
        if isinstance(s, ast.Break):
            return self.brk
        if isinstance(s, ast.Continue):
            return self.cont
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal,
                          ast.Delete)):
            if isinstance(s, ast.FunctionDef) and self.relevant(s):
                raise NotUnderstood("local function %s" % s.name)
            return nxt
        if isinstance(s, ast.Assert):
            return nxt
        raise NotUnderstood(type(s).__name__)

    def leave(self, tgt):
        return tgt

    def try_(self, s, nxt):
        def fin(t):
            return self.block(s.finalbody, t) if s.finalbody else t
        outer = self
        out = self.sub()
        if s.finalbody:
            out = self.sub(ret=fin(self.ret), brk=fin(self.brk) if self.brk else None,
                           cont=fin(self.cont) if self.cont else None, exc=lambda t: fin(outer.exc(t)))
            if self.dest is not None:
                pass
        after = fin(nxt)
        handlers = [(h, htypes(h)) for h in s.handlers]

        def exc(t):
            for h, types in handlers:
                if "Exception" in types or "BaseException" in types or t in types:
                    if h not in cache:
                        f = out.sub()
                        if h.name:
                            body = f.block(h.body, after)
                            cache[h] = self.cfg.add("set", ("local", self.local(h.name)), "?", body)
                        else:
                            cache[h] = f.block(h.body, after)
                    return cache[h]
            return out.exc(t)
        cache = {}
        els = out.block(s.orelse, after)
        return out.sub(exc=exc).block(s.body, els)

    def assign(self, targets, value, nxt):
        dests = []
        for t in targets:
            if isinstance(t, ast.Name):
                dests.append(("local", self.local(t.id)))
            elif is_self_attr(t) and t.attr in self.cfg.flags and t.attr not in self.cfg.events:
                dests.append(("flag", t.attr))
            elif is_self_attr(t) and t.attr in self.cfg.events:
                nxt = self.cfg.add("set", ("flag", t.attr), False, nxt)
                return nxt
            elif isinstance(t, (ast.Tuple, ast.List)):
                vals = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else None
                if vals is None:
                    if any(is_self_attr(e) and e.attr in self.cfg.flags for e in t.elts):
                        raise NotUnderstood("flags assigned from a sequence")
                    for e in t.elts:
                        if isinstance(e, ast.Name):
                            nxt = self.cfg.add("set", ("local", self.local(e.id)), "?", nxt)
                    return self.value(value, nxt, None)
                for e, v in reversed(list(zip(t.elts, vals))):
                    nxt = self.assign([e], v, nxt)
                return nxt
        if isinstance(value, ast.Call):
            f = ast.unparse(value.func).split(".")[-1]
            if f in ("Thread", "QThread"):
                tgt = [k.value for k in value.keywords if k.arg == "target"] or value.args[1:2]
                self.cfg.targets.append(ast.unparse(tgt[0]) if tgt else "?")
                return self.cfg.add("newthread", nxt)
        if not dests:
            return self.value(value, nxt, None)
        for d in reversed(dests[1:]):
            nxt = self.cfg.add("copy", d, dests[0], nxt)
        return self.value(value, nxt, dests[0])

    # -- expressions
    def relevant(self, node):
        for x in ast.walk(node):
            if isinstance(x, ast.Attribute):
                if x.attr in OPS or is_self_attr(x) and (x.attr in self.cfg.flags or x.attr in self.cfg.threads):
                    return True
                if is_self_attr(x):
                    m = self.cfg.prog.method(self.cfg.cls, x.attr)
                    if m is not None and m is not self.func and self.depth < 6 and \
                            Frame.relevant(self.sub(func=m, depth=self.depth + 1), m.node):
                        return True
        return False

    def value(self, e, nxt, dest):
        """evaluate e, put the value into dest, go on at nxt"""
        add = self.cfg.add

        def put(v):
            return nxt if dest is None else add("set", dest, v, nxt)
        if isinstance(e, ast.Constant):
            return put(e.value if e.value in (True, False, None) and not isinstance(e.value, (int, float)) or
                       isinstance(e.value, bool) else "?")
        if isinstance(e, ast.Name):
            return nxt if dest is None else add("copy", dest, ("local", self.local(e.id)), nxt)
        if isinstance(e, ast.Attribute):
            if is_self_attr(e):
                if e.attr in self.cfg.flags:
                    return nxt if dest is None else add("copy", dest, ("flag", e.attr), nxt)
                g = self.cfg.prog.getter(self.cfg.cls, e.attr)
                if g is not None and e.attr not in LOGGING:
                    return self.inline(g, (), (), nxt, dest)
                if e.attr == "_auto_tuner":
                    return put("tuner")
                if e.attr == "_history":
                    return put("hist")
                return put("?")
            return self.value(e.value, put("?"), None) if self.relevant(e.value) else put("?")
        if isinstance(e, (ast.BoolOp, ast.UnaryOp, ast.Compare)) and (dest is not None or self.relevant(e)):
            if isinstance(e, ast.UnaryOp) and not isinstance(e.op, ast.Not):
                return put("?")
            if isinstance(e, ast.BoolOp):
                tmp = dest or ("local", (self.id, "#%d" % id(e)))
                out = nxt
                for i, v in enumerate(reversed(e.values)):
                    if i == 0:
                        out = self.value(v, nxt, tmp)
                    else:
                        br = add("peek", tmp, out, nxt) if isinstance(e.op, ast.And) else add("peek", tmp, nxt, out)
                        out = self.value(v, br, tmp)
                return out
            return self.cond(e, put(True), put(False))
        if isinstance(e, ast.Call):
            return self.call(e, nxt, dest)
        if isinstance(e, ast.IfExp):
            return self.cond(e.test, self.value(e.body, nxt, dest), self.value(e.orelse, nxt, dest))
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Yield, ast.YieldFrom,
                          ast.Await, ast.NamedExpr)):
            if self.relevant(e):
                raise NotUnderstood(ast.unparse(e)[:60])
            return put("?")
        # effects of the parts
        out = put("?")
        for c in reversed(list(ast.iter_child_nodes(e))):
            if isinstance(c, ast.expr) and self.relevant(c):
                out = self.value(c, out, None)
        return out

    def cond(self, e, t, f):
        add = self.cfg.add
        if isinstance(e, ast.Constant):
            return t if e.value else f
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.cond(e.operand, f, t)
        if isinstance(e, ast.BoolOp):
            for i, v in enumerate(reversed(e.values)):
                if i == 0:
                    out = self.cond(v, t, f)
                else:
                    out = self.cond(v, out, f) if isinstance(e.op, ast.And) else self.cond(v, t, out)
            return out
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and \
                (e.comparators[0].value is None or isinstance(e.comparators[0].value, bool)) and \
                isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            tmp = ("local", (self.id, "#%d" % id(e)))
            if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)):
                t, f = f, t
            return self.value(e.left, add("is", tmp, e.comparators[0].value, t, f), tmp)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            return self.cond(e.args[0], t, f)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 and \
                isinstance(e.args[0], (ast.Tuple, ast.List)):
            return self.cond(ast.BoolOp(op=ast.Or() if e.func.id == "any" else ast.And(), values=e.args[0].elts), t, f)
        tmp = ("local", (self.id, "#%d" % id(e)))
        return self.value(e, add("branch", tmp, t, f), tmp)

    def call(self, e, nxt, dest):
        add = self.cfg.add

        def put(v):
            return nxt if dest is None else add("set", dest, v, nxt)

        def args(out):
            for a in reversed(list(e.args) + [k.value for k in e.keywords]):
                a = a.value if isinstance(a, ast.Starred) else a
                if self.relevant(a) and not is_self_attr(a):
                    out = self.value(a, out, None)
            return out
        f = e.func
        if isinstance(f, ast.Attribute):
            owner = f.value
            if is_self_attr(owner) and owner.attr in self.cfg.threads:
                if f.attr in ("is_alive", "isAlive", "isRunning"):
                    return add("alive", dest or ("local", (0, "#")), nxt)
                if f.attr in ("join", "wait"):
                    if e.args or e.keywords:
                        return nxt
                    return add("join", nxt)
                if f.attr == "start":
                    return add("spawn", nxt)
                return put("?")
            if is_self_attr(owner) and owner.attr in self.cfg.events:
                if f.attr == "set":
                    return add("set", ("flag", owner.attr), True, nxt)
                if f.attr == "clear":
                    return add("set", ("flag", owner.attr), False, nxt)
                if f.attr in ("is_set", "isSet", "wait"):
                    return nxt if dest is None else add("copy", dest, ("flag", owner.attr), nxt)
            if f.attr in OPS:
                tmp = ("local", (self.id, "#%d" % id(e)))
                arg = None
                if f.attr == "append_autotuner":
                    given = list(e.args) + [k.value for k in e.keywords]
                    arg = ("local", (self.id, "#a%d" % id(e)))
                out = add("op", f.attr, tmp, arg, dest, nxt, self.exc("?"), e)
                if arg is not None and given:
                    out = self.value(given[0], out, arg)
                return self.value(owner, out, tmp)
            if isinstance(owner, ast.Name) and owner.id == "self":
                m = self.cfg.prog.method(self.cfg.cls, f.attr)
                if m is not None and f.attr not in LOGGING:
                    return args(self.inline(m, e.args, e.keywords, nxt, dest))
                return args(put("?"))
            out = args(put("?"))
            return self.value(owner, out, None) if self.relevant(owner) else out
        return args(put("?"))

    def inline(self, m, args, kws, nxt, dest):
        if self.depth > 6:
            raise NotUnderstood("recursion")
        for d in m.node.decorator_list:
            n = ast.unparse(d)
            if not (n in ("property", "staticmethod") or "pyqtSlot" in n):
                if self.relevant(m.node):
                    raise NotUnderstood("decorator %s of %s" % (n, m.name))
                return nxt if dest is None else self.cfg.add("set", dest, "?", nxt)
        if not self.sub(func=None).relevant(m.node) and m.prop != "get":
            return nxt if dest is None else self.cfg.add("set", dest, "?", nxt)
        end = nxt if dest is None else nxt
        fr = Frame(self.cfg, m, ret=end, dest=dest, exc=self.exc, depth=self.depth + 1)
        out = fr.block(m.node.body, end if dest is None else self.cfg.add("set", dest, None, end))
        pos = [a.arg for a in m.node.args.args][1:]
        binds = list(zip(pos, args)) + [(k.arg, k.value) for k in kws]
        dv = dict(zip(pos[len(pos) - len(m.node.args.defaults):], m.node.args.defaults))
        for n, v in dv.items():
            if n not in [b[0] for b in binds]:
                binds.append((n, v))
        for n, v in reversed(binds):
            out = self.value(v, out, ("local", fr.local(n)))
        return out


def htypes(h):
    if h.type is None:
        return ["BaseException"]
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [ast.unparse(t).split(".")[-1] for t in ts]


# -- exploration
UNSET = "unset"


class Scenario:
    def __init__(self, tuner, hist, complete, fails):
        self.tuner, self.hist, self.complete, self.fails = tuner, hist, complete, fails

    def __str__(self):
        return "%s autotuner, %s history, tuning %scomplete%s" % (
            "an" if self.tuner else "no", "a" if self.hist else "no", "" if self.complete else "not ",
            ", %s raises" % self.fails if self.fails else "")


class State:
    """flags, both processes' positions and locals, and the history needed for the verdicts"""
    __slots__ = ("flags", "w", "wl", "e", "el", "auth", "sp", "ss", "pend", "req", "key")

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        self.key = (self.flags, self.w, self.wl, self.e, self.el, self.auth, self.sp, self.ss, self.pend, self.req)

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__ if k != "key"}
        d.update(kw)
        return State(**d)


class Explorer:
    def __init__(self, cfg, sc, entry, init, actions, roles):
        self.cfg, self.sc, self.entry, self.actions, self.roles = cfg, sc, entry, actions, roles
        self.bad = {}
        self.init = init
        self.edges = 0

    def flag(self, s, role):
        n = self.roles[role]
        return s.flags[self.cfg.flaglist.index(n)]

    def get(self, s, src, who):
        if src[0] == "flag":
            return s.flags[self.cfg.flaglist.index(src[1])]
        loc = dict(s.wl if who == "w" else s.el)
        return loc.get(src[1], "?")

    def put(self, s, dst, v, who):
        if dst[0] == "flag":
            i = self.cfg.flaglist.index(dst[1])
            fl = s.flags[:i] + (v,) + s.flags[i + 1:]
            return self.watch(s.but(flags=fl), s, who)
        k = "wl" if who == "w" else "el"
        d = dict(getattr(s, k))
        d[dst[1]] = v
        return s.but(**{k: tuple(sorted(d.items(), key=repr))})

    def watch(self, n, o, who):
        """history variables after a change of a flag"""
        c, t, x = self.flag(n, "cont"), self.flag(n, "step"), self.flag(n, "stop")
        kw = {}
        if c is True or (who == "e" and t is True and self.flag(o, "step") is not True):
            kw["auth"] = True
        if c is True or t is True:
            kw["sp"] = 0
        if x is not True:
            kw["ss"] = 0
        else:
            kw["req"] = True
        return n.but(**kw)

    def val(self, v):
        if v == "tuner":
            return "obj:tuner" if self.sc.tuner else None
        if v == "hist":
            return "obj:hist" if self.sc.hist else None
        return v

    def truths(self, v):
        if v == "?":
            return (True, False)
        if v == UNSET:
            return ()
        return (bool(v),)

    def complain(self, what, msg):
        self.bad.setdefault(what, msg)

    def step(self, s, who):
        """[(state, label)] of one process"""
        pc = s.w if who == "w" else s.e
        node = self.cfg.nodes[pc]
        k = node[0]

        def go(st, to):
            return st.but(**{who if who == "w" else "e": to})
        if k == "nop":
            return [(go(s, node[1]), None)]
        if k == "set":
            return [(go(self.put(s, node[1], self.val(node[2]), who), node[3]), None)]
        if k == "copy":
            v = self.get(s, node[2], who)
            if v == UNSET:
                self.complain("flags-initialised", "the worker reads self.%s before it is set" % (node[2][1],))
                return []
            return [(go(self.put(s, node[1], v, who), node[3]), None)]
        if k in ("branch", "peek"):
            v = self.get(s, node[1], who)
            s2 = self.forget(s, node[1], who) if k == "branch" else s
            return [(go(s2, node[2] if b else node[3]), None) for b in self.truths(v)]
        if k == "is":
            v = self.get(s, node[1], who)
            s2 = self.forget(s, node[1], who)
            if v == "?":
                return [(go(s2, node[3]), None), (go(s2, node[4]), None)]
            return [(go(s2, node[3] if v is node[2] else node[4]), None)]
        if k == "alive":
            return [(go(self.put(s, node[1], s.w not in (None, "end"), who), node[2]), None)]
        if k == "newthread":
            return [(go(s, node[1]), None)]
        if k == "spawn":
            if who == "w":
                return [(go(s, node[1]), None)]
            if s.w not in (None, "end"):
                self.complain("one-worker", "a second worker is started while the first is running")
                return []
            n = go(s, node[1])
            return [(n.but(w=self.entry, wl=(), req=self.flag(n, "stop") is True, ss=0), None)]
        if k == "join":
            if who == "w":
                self.complain("join", "the worker waits for itself")
                return []
            return [(go(s, node[1]), None)] if s.w in (None, "end") else []
        if k == "end":
            if who == "w":
                if not s.req:
                    self.complain("alive", "the worker ends although no stop is requested")
                return [(s.but(w="end", wl=()), "ended")]
        if k == "dead":
            if who == "w":
                self.complain("survives", "an exception leaves the worker function")
                return [(s.but(w="end", wl=(), req=True), "ended")]
            return [(s.but(e="idle", el=()), None)]
        if k == "op":
            _, name, recv, arg, dest, nxt, exc, _n = node
            r = self.get(s, recv, who)
            s2 = self.forget(s, recv, who)
            if arg is not None:
                a = self.get(s, arg, who)
                s2 = self.forget(s2, arg, who)
                if name == "append_autotuner" and a not in ("obj:tuner", "?"):
                    self.complain("appended", "something else than the autotuner is appended to the history")
            if r is None:
                return [(go(s2, exc), None)]
            if who == "e":
                return [(go(s2, nxt), None)]
            lab = None
            if name == "iterate":
                if not s.auth:
                    self.complain("requested", "an iteration starts although neither continuous mode nor a further step was requested")
                if s.pend:
                    self.complain("appended", "the next iteration starts before the previous one was appended to the history")
                c, t, x = self.flag(s, "cont"), self.flag(s, "step"), self.flag(s, "stop")
                sp = min(2, s.sp + 1) if c is not True and t is not True else s.sp
                ss = min(2, s.ss + 1) if x is True else s.ss
                if sp > 1:
                    self.complain("requested", "iterations go on after the pause")
                if ss > 1:
                    self.complain("stops", "iterations go on after stop was requested")
                s2 = s2.but(auth=c is True, sp=sp, ss=ss)
                lab = "iterate"
            if name == "append_autotuner":
                s2 = s2.but(pend=False)
            if self.sc.fails == name:
                return [(go(s2, exc), lab)]
            if name == "iterate" and self.sc.hist:
                s2 = s2.but(pend=True)
            v = self.sc.complete if name == "is_tuning_complete" else "?"
            if dest is not None:
                s2 = self.put(s2, dest, v, who)
            return [(go(s2, nxt), lab)]
        raise NotUnderstood(k)

    def forget(self, s, src, who):
        if src[0] == "local" and isinstance(src[1][1], str) and src[1][1].startswith("#"):
            k = "wl" if who == "w" else "el"
            return s.but(**{k: tuple(x for x in getattr(s, k) if x[0] != src[1])})
        return s

    def run(self, limit=400000):
        s0 = State(flags=tuple(UNSET for _ in self.cfg.flaglist), w=None, wl=(), e=self.init, el=(), auth=False, sp=0,
                   ss=0, pend=False, req=False)
        seen, todo, worker = {s0.key: s0}, [s0], {}
        while todo:
            s = todo.pop()
            succ = []
            if s.w not in (None, "end"):
                ws = self.step(s, "w")
                worker[s.key] = [(n.key, lab) for n, lab in ws]
                succ += [n for n, _ in ws]
            if s.e == "idle":
                for a in self.actions.values():
                    succ.append(s.but(e=a, el=()))
            elif self.cfg.nodes[s.e][0] == "end":
                succ.append(s.but(e="idle", el=()))
            else:
                succ += [n for n, _ in self.step(s, "e")]
            for n in succ:
                self.edges += 1
                if n.key not in seen:
                    seen[n.key] = n
                    todo.append(n)
                    if len(seen) > limit:
                        raise NotUnderstood("too many states")
        self.states = len(seen)
        self.quiet(seen, worker)

    def quiet(self, seen, worker):
        """what the worker does when the user does nothing, or waits for it"""
        for s in seen.values():
            if s.e == "idle" and s.w in (None, "end") and self.flag(s, "stop") is not True and \
                    (self.flag(s, "cont") is True or self.flag(s, "step") is True):
                self.complain("alive", "iterations are requested and no worker is running")
        nodes = [k for k, s in seen.items() if s.w not in (None, "end") and
                 (s.e == "idle" or s.e != "idle" and self.cfg.nodes[s.e][0] == "join")]
        for comp in sccs(nodes, worker):
            states = [seen[k] for k in comp]
            inside = set(comp)
            labs = [lab for k in comp for n, lab in worker.get(k, ()) if n in inside]
            if not labs:
                continue
            waiting = states[0].e != "idle"
            if waiting:
                self.complain("stops", "the worker can go on forever while the window waits for its end")
                continue
            if any(self.flag(s, "stop") is True for s in states):
                self.complain("stops", "the worker can go on forever after stop was requested")
            active = any(self.flag(s, "cont") is True or self.flag(s, "step") is True for s in states)
            if active:
                if not self.sc.tuner or self.sc.complete is True or self.sc.fails:
                    self.complain("pauses", "the run goes on instead of pausing (%s)" % self.sc)
                elif "iterate" not in labs and not any(
                        n not in inside for k in comp for n, _ in worker.get(k, ())):
                    self.complain("works", "iterations are requested and the worker does not perform them")
            elif "iterate" in labs:
                self.complain("requested", "the worker iterates while it is paused")
            elif any(s.pend for s in states):
                self.complain("appended", "a successful iteration is not appended to the history")


def sccs(nodes, edges):
    index, low, on, stack, out, n = {}, {}, set(), [], [], 0
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(edges.get(root, ())))]
        index[root] = low[root] = n
        n += 1
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w, _ in it:
                if w not in index:
                    index[w] = low[w] = n
                    n += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(edges.get(w, ()))))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
    return out


def alone(cfg, entry, flags, alive, sc, block=True):
    """flags after a slot runs by itself: set of flag tuples; 'hang' if it waits for a running worker"""
    ex = Explorer(cfg, sc, "W", None, {}, {"cont": cfg.flaglist[0], "step": cfg.flaglist[0], "stop": cfg.flaglist[0]})
    s0 = State(flags=flags, w="W" if alive else "end", wl=(), e=entry, el=(), auth=True, sp=0, ss=0, pend=False, req=False)
    out, todo, seen = set(), [s0], {s0.key}
    while todo:
        s = todo.pop()
        if cfg.nodes[s.e][0] == "end":
            out.add((s.flags, s.w))
            continue
        if cfg.nodes[s.e][0] == "join" and s.w == "W" and not block:
            s = s.but(w="end")
        if cfg.nodes[s.e][0] == "join" and s.w == "W":
            out.add((s.flags, "W"))
            continue
        for n, _ in ex.step(s, "e"):
            if n.e == "idle":
                continue
            if n.key not in seen:
                seen.add(n.key)
                todo.append(n)
    return out


def roles(cfg, actions):
    """which flag means what, from what the slots do to it"""
    off = tuple(False for _ in cfg.flaglist)
    out = {}
    for role, act in (("cont", "start"), ("step", "step"), ("stop", "close")):
        ends = alone(cfg, actions[act], off, True, Scenario(True, True, False, None), False)
        on = {tuple(n for n, v in zip(cfg.flaglist, f) if v is True) for f, _ in ends}
        if len(on) != 1 or len(next(iter(on))) != 1:
            raise NotUnderstood("%s raises the flags %s" % (act, sorted(on)))
        out[role] = next(iter(on))[0]
    if len(set(out.values())) != 3:
        raise NotUnderstood("flags %s" % out)
    return out


TEXT = {"flags-initialised": "flags are set before the worker reads them"}


def worker(ctx):
    rep, prog = ctx.rep, ctx.prog
    cls = prog.cls("GUI")
    con = "GUI"
    try:
        cfg = Cfg(prog, cls)
        end = cfg.add("end")
        actions = {a: cfg.method(a, end) for a in ("start", "step", "pause", "close")}
        init = cfg.method("__init__", end)
        names = {t.split(".")[-1] for t in cfg.targets}
        if len(names) != 1 or not names <= {m for k in prog.mro(cls) for m in k.methods}:
            raise NotUnderstood("the worker function is %s" % sorted(names))
        wname = names.pop()
        entry = cfg.method(wname, end)
        role = roles(cfg, actions)
        slots(rep, cfg, actions, role)
        scen = [Scenario(t, h, c, f) for t in (True, False) for h in (True, False) for c in (False, True, "?")
                for f in (None,) + OPS
                if (t or (c is False and f is None)) and not (c == "?" and f) and not (c is True and f in ("iterate", "append_autotuner")) and not (not h and f == "append_autotuner")]
        found, n, m = {}, 0, 0
        for sc in scen:
            ex = Explorer(cfg, sc, entry, init, actions, role)
            ex.run()
            n, m = n + ex.states, m + ex.edges
            for k, msg in ex.bad.items():
                found.setdefault(k, "%s (with %s)" % (msg, sc) if str(sc) not in msg else msg)
            for k in ("requested", "stops", "pauses", "appended", "survives", "works", "alive"):
                if k not in ex.bad:
                    rep.ok(k, "%s/%s" % (con, sc))
        f = prog.method(cls, wname)
        for k, msg in found.items():
            if cfg.locked:
                rep.unk(k, con, msg + " (a lock is used)", (f.module.rel, f.node.lineno, f.qual))
            else:
                rep.bad(k, con + "." + wname, msg, (f.module.rel, f.node.lineno, f.qual))
        rep.stats["paths"] += len(scen)
        rep.stats["calls"] += m
        for a in list(actions) + ["__init__", wname]:
            g = prog.method(cls, a)
            rep.stats["functions"].add((g.module.rel, g.qual))
        rep.notes.append("%d scenarios, %d product states, %d transitions" % (len(scen), n, m))
    except NotUnderstood as e:
        rep.unk("worker", con, "not understood: %s" % e)


def slots(rep, cfg, actions, role):
    """each slot by itself, with the worker running and with the worker ended"""
    from itertools import product
    ix = {r: cfg.flaglist.index(n) for r, n in role.items()}
    sc = Scenario(True, True, False, None)
    for act in ("start", "step", "pause", "close"):
        for c, t in product((False, True), repeat=2):
            for alive in (True, False):
                fl = [False] * len(cfg.flaglist)
                fl[ix["cont"]], fl[ix["step"]], fl[ix["stop"]] = c, t, not alive
                con = "GUI." + act
                for f, w in alone(cfg, actions[act], tuple(fl), alive, sc):
                    c2, t2, x2 = f[ix["cont"]], f[ix["step"]], f[ix["stop"]]
                    if act == "start":
                        ok = c2 is True and (x2 is False)
                    elif act == "step":
                        ok = t2 is True and x2 is False and (c2 == (c if alive else False))
                    elif act == "pause":
                        ok = c2 is False and t2 is False and x2 is (not alive)
                    else:
                        ok = x2 is True
                    rep.check(ok, "slot", con, "after %s with the worker %s continuous is %s, the step flag %s, the stop flag %s"
                              % (act, "running" if alive else "ended", c2, t2, x2))


RULES = {
    "C25": (worker, "Control flow graphs of the worker function and of the slots start, step, pause and close over the "
            "window's boolean flags, compiled from the syntax tree; fixpoint over the product of worker and user, interleaved "
            "at every flag access, for every combination of autotuner, history, completion and failing operation; "
            "safety by history variables, ending and pausing by cycles of the worker alone."),
}

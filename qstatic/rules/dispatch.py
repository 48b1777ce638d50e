"""C45: an experiment conducts the measurement that was asked for, with its own options."""
import ast
import os
import re
from .common import *
from .. import terms as T
from ..terms import NONE
from .mutation import Analysis

SELF = ("self",)
ENGINE = ("attr", ("attr", SELF, "_matlab"), "engine")
CONV = {"float", "int", "str", "asarray", "array", "copy", "deepcopy"}
# scan -> MATLAB function of the package that conducts it
SCANS = {"line_scan": "PythonChargeLineScan", "detune_scan": "PythonLineScan", "lead_scan": "LeadScan",
         "load_scan": "LoadScan", "2d_scan": "PythonQPCScan2D"}
POINTS = {"stp": ("STp_x", "STp_y"), "tl": ("Tp_x", "Tp_y")}


def strip(t):
    """a value without conversions of its type"""
    while True:
        if t[0] == "fn" and t[1] in CONV and len(t[2]) >= 1:
            t = t[2][0]
        elif t[0] == "mcall" and t[2] in ("to_matlab", "item", "copy") and len(t[3]) <= 1:
            t = t[3][0] if t[3] else t[1]
        elif t[0] == "ite" and strip(t[2]) == strip(t[3]):
            t = strip(t[2])
        else:
            return t


class View:
    """a dictionary as the options of a measurement minus / plus / with changed entries"""
    def __init__(self, base=None):
        self.base, self.removed, self.added, self.wrong, self.vague = base, set(), {}, [], False

    def get(self, key):
        """the value of a constant key: ('own', key), a term, or None if it may be missing"""
        if key in self.added:
            return self.added[key]
        if self.base is None or key in self.removed:
            return None
        return ("own", key)


def view(t, options):
    if t == options:
        return View(options)
    if t[0] == "fn" and t[1] in ("dict", "copy", "deepcopy") and len(t[2]) == 1:
        v = view(t[2][0], options)
        for k, x in t[3]:
            put(v, k, x, options)
        return v
    if t[0] == "fn" and t[1] == "dict" and not t[2]:
        v = View()
        for k, x in t[3]:
            put(v, k, x, options)
        return v
    if t[0] == "mcall" and t[2] in ("copy", "to_matlab"):
        return view(t[3][0] if t[2] == "to_matlab" and t[3] else t[1], options)
    if t[0] in ("delitem", "popped") and len(t) == 3:
        v = view(t[1], options)
        if T.is_str(t[2]):
            v.removed.add(t[2][1])
            v.added.pop(t[2][1], None)
        else:
            v.vague = True
        return v
    if t[0] == "setitem":
        v = view(t[1], options)
        k, x = t[2], strip(t[3])
        if T.is_str(k):
            put(v, k[1], t[3], options)
        elif k[0] in ("key", "elem"):
            src = k[1]
            own = x == ("val", src) or (x[0] == "item" and x[2] == k and base_of(x[1]) == base_of(src)) or \
                (x[0] == "val" and base_of(x[1]) == base_of(src) == options)
            if not own:
                if vague(x):
                    v.vague = True
                else:
                    v.wrong.append("every option is given the value %s" % T.show(x)[:80])
        else:
            v.vague = True
        return v
    if t[0] == "dict":
        v = View()
        for k, x in t[1]:
            if T.is_str(k):
                put(v, k[1], x, options)
            elif k == ("const", "**") or k[0] == "star":
                v.vague = True
            else:
                v.vague = True
        return v
    if t[0] == "comp" and t[1] == "dict" and len(t) >= 5:
        elt, conds = t[2], t[4]
        pair = elt[1] if elt[0] in ("tuple", "list", "elem") else None
        while pair is not None and pair and pair[0] in ("tuple", "list"):
            pair = pair[1]
        if isinstance(pair, tuple) and len(pair) == 2 and pair[0][0] in ("key", "elem"):
            k, x = pair[0], strip(pair[1])
            v = view(k[1], options) if base_of(k[1]) == options else View()
            own = x == ("val", k[1]) or (x[0] == "item" and x[2] == k)
            if not own:
                v.vague = True
            for c in flat_and(conds):
                if c[0] == "not" and c[1][0] == "==" and k in c[1][1:] and any(T.is_str(y) for y in c[1][1:]):
                    v.removed.add([y for y in c[1][1:] if T.is_str(y)][0][1])
                elif c[0] == "!=" and k in c[1:]:
                    v.removed.add([y for y in c[1:] if T.is_str(y)][0][1])
                elif (T.contains(c, ("val", k[1])) or T.contains(c, ("item", k[1], k))) and not vague(c):
                    v.wrong.append("options are left out unless %s" % T.show(c)[:60])
                else:
                    v.vague = True
            return v
    if t[0] == "merge":
        v = None
        for x in t[1:]:
            w = view(x, options)
            if v is None:
                v = w
            else:
                v.removed -= set(w.added)
                v.added.update(w.added)
                v.vague = v.vague or w.vague or (w.base is not None and v.base is not None)
                v.base = v.base or w.base
        if v is not None:
            return v
    v = View()
    v.vague = True
    return v


def flat_and(conds):
    out = []
    for c in conds if isinstance(conds, tuple) and (not conds or isinstance(conds[0], tuple)) else (conds,):
        if c and c[0] == "and":
            out.extend(flat_and(c[1]))
        elif c:
            out.append(c)
    return out


def base_of(t):
    while t[0] in ("setitem", "delitem", "popped", "merge") or (t[0] == "fn" and t[1] in ("dict", "copy", "keys", "items", "list") and len(t[2]) == 1):
        if t[0] == "fn":
            t = t[2][0]
        else:
            t = t[1]
            if t and isinstance(t[0], tuple):
                t = t[0]
    return t


def put(v, k, x, options):
    s = strip(x)
    v.removed.discard(k)
    seen = 0
    while s[0] == "item" and T.is_str(s[2]) and seen < 20:
        # a look-up in an earlier version of the same dictionary
        seen += 1
        w = view(s[1], options)
        if w.vague:
            break
        g = w.get(s[2][1])
        if g is None:
            break
        if g[0] == "own":
            s = ("own", g[1])
            break
        s = strip(g)
    v.added[k] = s


def eq_name(name, n):
    return T.cmp("==", name, ("const", n))


def consistent(p, name, n, names):
    """the path can be taken by the measurement called n"""
    return all(named(x.term, name, n) in (None, x.val) for x in p.facts)


def named(t, name, n):
    """truth of t for the measurement called n, None if it depends on something else"""
    if t[0] in ("==", "!=") and name in t[1:3]:
        o = t[2] if t[1] == name else t[1]
        if T.is_str(o):
            return (o[1] == n) == (t[0] == "==")
    elif t[0] == "not":
        v = named(t[1], name, n)
        return None if v is None else not v
    elif t[0] in ("and", "or"):
        vs = [named(x, name, n) for x in (t[1] if len(t) == 2 and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else t[1:])]
        if (t[0] == "or") in vs:
            return t[0] == "or"
        return None if None in vs else t[0] == "and"
    elif t[0] == "in" and t[1] == name and t[2][0] in ("list", "tuple", "set") and all(T.is_str(x) for x in t[2][1]):
        return n in [x[1] for x in t[2][1]]
    return None


# -- the MATLAB side --------------------------------------------------------------------------------------------------
class MFile:
    def __init__(self, path):
        with open(path, encoding="utf-8", errors="replace") as h:
            self.text = "\n".join(code(l) for l in h.read().splitlines())
        m = re.search(r"^\s*function\s+(?:(?:\[[^\]]*\]|\w+)\s*=\s*)?([\w.]+)\s*(?:\(([^)]*)\))?", self.text, re.M)
        self.name = m.group(1) if m else None
        self.params = [x.strip() for x in (m.group(2) or "").split(",") if x.strip()] if m else []

    def fields(self, n):
        """the fields that are read from parameter n"""
        if n >= len(self.params):
            return set()
        return set(re.findall(r"(?<![\w.])%s\.([A-Za-z]\w*)" % re.escape(self.params[n]), self.text))


def code(line):
    """a line without its comment"""
    out, instr = [], False
    for k, c in enumerate(line):
        if c == "'":
            if instr:
                instr = False
            elif not out or not (out[-1].isalnum() or out[-1] in "_)]}.'"):
                instr = True
        elif c == "%" and not instr:
            break
        out.append(c)
    return "".join(out)


def m_functions(ctx):
    root = os.path.join(ctx.prog.repo, "qtune", "MATLAB", "+qtune")
    out = {}
    if os.path.isdir(root):
        for f in sorted(os.listdir(root)):
            if f.endswith(".m"):
                out[f[:-2]] = MFile(os.path.join(root, f))
    return out


# -- which changes a function makes to its parameter -----------------------------------------------------------------
class AllHits(Analysis):
    def hits(self, f, param):
        from .mutation import Flow
        got = []

        class F(Flow):
            def hit(self, v, node, how, certain=True):
                if certain and any(a[0] == "is" and a[1] == ("param", param) for a in v):
                    got.append((node, how))
                Flow.hit(self, v, node, how, certain)
        F(self, f)
        return got


def unchanged(ctx, an, cls, name, allowed_lines=()):
    rep = ctx.rep
    f = ctx.prog.method(cls, name)
    if f is None:
        return
    for par in f.params()[0][1:]:
        hits = [(n, how) for n, how in an.hits(f, par) if n.lineno not in allowed_lines]
        rep.check(not hits, "measurement-unchanged", "%s.%s(%s)" % (cls.name, name, par),
                  hits and "the measurement asked for is modified: %s" % hits[0][1],
                  hits and "%s:%d" % (f.module.rel, hits[0][0].lineno) or None)


def c45(ctx):
    simulated(ctx)
    qqd(ctx)
    legacy(ctx)
    rep = ctx.rep
    rep.need("simulated", 6)
    rep.need("simulator-known", 2)
    rep.need("unknown-refused", 3)
    rep.need("name-index-options", 6)
    rep.need("result", 12)
    rep.need("own-function", 5)
    rep.need("own-options", 5)
    rep.need("matlab-fields", 5)
    rep.need("measurement-unchanged", 5)


# -- simulated experiments --------------------------------------------------------------------------------------------
def simulated(ctx):
    rep, prog = ctx.rep, ctx.prog
    cls = prog.cls("TestExperiment")
    f = prog.method(cls, "measure")
    m = ("param", f.params()[0][1])
    i, ps = ctx.run(cls, "measure")
    con = "TestExperiment.measure"
    key = None
    for p in ps:
        if p.kind != "ret":
            continue
        es = p.calls("simulate_measurement")
        r = p.ret
        if len(es) != 1:
            rep.check(False if not es and not vague(r) and not T.contains(r, ("attr", SELF, "_simulator_dict")) else None,
                      "simulated", con, "no simulator is asked", p.loc, p)
            continue
        e = es[0]
        recv = e.recv
        if recv[0] == "item":
            key = recv[2]
            rep.check(key == ("fn", "id", (m,), ()) or (None if vague(key) else False), "simulated", con + "/simulator",
                      "the simulator is looked up under %s" % T.show(key)[:80], e.loc, p)
        else:
            rep.unk("simulated", con + "/simulator", "%s" % T.show(recv)[:80], e.loc)
        volts = e.arg(0, "gate_voltages")
        own = ("attr", SELF, "_gate_voltages")
        x = volts
        while x is not None and x[0] == "fn" and x[1] in ("copy", "deepcopy", ".sort_index", "sort_index", ".copy") and x[2]:
            x = x[2][0]
        rep.check(x == own or (None if x is None or vague(x) else False), "simulated", con + "/voltages",
                  "the simulator is not given the present gate voltages but %s" % (T.show(x)[:80] if x else "nothing"), e.loc, p)
        rep.check(e.arg(1, "measurement") == m, "simulated", con + "/measurement", "another measurement is simulated", e.loc, p)
        ok = e.res is None or r == e.res or (r[0] == "mcall" and r[2] == "simulate_measurement")
        rep.check(ok or (None if vague(r) or T.contains(r, recv) else False), "simulated", con + "/result",
                  "the result %s is not that of the simulator" % T.show(r)[:80], p.loc, p)
    sim = prog.cls("Simulator")
    f = prog.method(sim, "simulate_measurement")
    a, b = [("param", x) for x in f.params()[0][1:3]]
    i, ps = ctx.run(sim, "simulate_measurement")
    con = "Simulator.simulate_measurement"
    for p in ps:
        if p.kind != "ret":
            continue
        es = [e for e in p.events if e.kind == "call" and e.name == "_simulation_function"]
        if len(es) != 1:
            rep.check(None if vague(p.ret) else False, "simulated", con, "the simulation function is not called once", p.loc, p)
            continue
        e = es[0]
        rep.check(e.arg(0) == a and e.arg(1) == b, "simulated", con + "/arguments",
                  "the simulation function is called with %s" % ", ".join(T.show(x)[:40] for x in e.args), e.loc, p)
        o = e.arg(2)
        while o is not None and o[0] == "fn" and o[1] in ("copy", "dict", "deepcopy") and o[2]:
            o = o[2][0]
        rep.check(o == ("attr", SELF, "_options") or (None if o is None or vague(o) else False), "simulated", con + "/options",
                  "the simulator's options are not passed on", e.loc, p)
        ok = p.ret[0] in ("mcall", "call") and p.ret[2 if p.ret[0] == "mcall" else 1] == "_simulation_function" or \
            T.contains(p.ret, ("attr", SELF, "_simulation_function")) or "_simulation_function" in T.show(p.ret)
        rep.check(ok or (None if vague(p.ret) else False), "simulated", con + "/result", "the simulated data is not returned", p.loc, p)
    # every measurement has a simulator
    i, ps = ctx.run(cls, "__init__")
    f = prog.method(cls, "__init__")
    pars = f.params()[0]
    known = set()
    for p in ps:
        for fact in p.facts:
            for x in T.subterms(fact.term):
                if x[0] == "in" and T.contains(x[1], ("elem", ("param", "measurements"))):
                    known.add((x, p.kind))
    con = "TestExperiment.__init__"
    for x, kind in known:
        want = ("fn", "id", (("elem", ("param", "measurements")),), ())
        rep.check(x[1] == want or (None if vague(x[1]) else False), "simulator-known", con + "/" + kind,
                  "the simulators are looked up by %s, the constructor asks for %s" % ("id(measurement)", T.show(x[1])[:60]), f.loc if hasattr(f, "loc") else None)
    if not any(p.kind == "raise" for p in ps):
        rep.bad("simulator-known", con, "a measurement without a simulator is accepted")
    an = AllHits(prog)
    unchanged(ctx, an, cls, "measure")
    unchanged(ctx, an, sim, "simulate_measurement")


# -- QQD --------------------------------------------------------------------------------------------------------------
def qqd(ctx):
    rep, prog = ctx.rep, ctx.prog
    cls = prog.cls("SMTuneQQD")
    i, ps0 = ctx.run(cls, "__init__")
    names = []
    for p in ps0:
        d = p.final("_measurements")
        if d is not None and d[0] == "dict":
            for k, v in d[1]:
                if T.is_str(k):
                    names.append(k[1])
                    if v[0] == "new" and v[2:3] and v[2] and T.is_str(v[2][0]):
                        rep.check(v[2][0] == k, "result", "SMTuneQQD.__init__/" + k[1], "the measurement known as %s is called %s" %
                                  (k[1], v[2][0][1]), p.loc)
    names = list(dict.fromkeys(names))
    lines = set()
    for meth in ("measure", "measure_legacy"):
        f = prog.method(cls, meth)
        if f is None:
            continue
        m = ("param", f.params()[0][1])
        name, options = ("attr", m, "name"), ("attr", m, "options")
        known = ("in", name, ("attr", SELF, "_measurements"))
        i, ps = ctx.run(cls, meth)
        con = "SMTuneQQD." + meth
        refused = 0
        for p in ps:
            calls = tune_calls(p)
            kn = p.truth(known)
            if kn is False:
                refused += 1
                rep.check(p.kind == "raise" and not calls, "unknown-refused", con + "/unknown name",
                          "a measurement that is not known is %s" % ("conducted" if calls else "not refused"), p.loc, p)
                continue
            if calls and kn is None:
                asked = any(T.contains(x.term, ("attr", SELF, "_measurements")) for x in p.facts_before(calls[0]))
                rep.check(None if asked else False, "unknown-refused", con + "/known name",
                          "a measurement is conducted without asking whether it is known", calls[0].loc, p)
            if p.kind == "raise":
                continue
            rep.check(len(calls) == 1, "name-index-options", con + "/once", "the measurement is conducted %d times" % len(calls), p.loc, p)
            for e in calls:
                one_call(rep, p, e, con, name, options)
            if calls and meth == "measure":
                for n in names:
                    if consistent(p, name, n, names):
                        result(rep, p, con, n, calls[0])
            for e in p.events:
                if e.kind == "mutate" and e.recv == options and e.name == "setitem" and len(e.args) == 2:
                    x = strip(e.args[1])
                    if x == ("item", options, e.args[0]) and e.loc:
                        lines.add(e.loc[1])
        if meth == "measure":
            for n in names:
                if not any(p.kind == "ret" and consistent(p, name, n, names) for p in ps):
                    rep.bad("result", con + "/" + n, "the declared measurement %s is never conducted" % n)
        if not refused:
            rep.check(False if not any(p.kind == "raise" and not tune_calls(p) for p in ps) else None, "unknown-refused", con,
                      "no measurement is refused")
    an = AllHits(prog)
    for meth in ("measure", "measure_legacy", "pytune"):
        unchanged(ctx, an, cls, meth, lines)


def tune_calls(p):
    return [e for e in p.events if e.kind == "call" and e.name == "()" and e.recv is not None and e.recv[0] == "new" and
            e.recv[1] == "MATLABFunctionView"]


def one_call(rep, p, e, con, name, options):
    f = e.recv
    target = f[2][1] if len(f[2]) > 1 else dict(f[3]).get("function_name")
    rep.check(target == ("const", "tune.tune") or (None if target is None or vague(target) else False), "name-index-options", con + "/function",
              "%s conducts the measurement" % (T.show(target) if target else "?"), e.loc, p)
    args = []
    for a in e.args:
        if a[0] == "star":
            args.extend(flatten(a[1]))
        else:
            args.append(a)
    if not args:
        rep.check(False, "name-index-options", con + "/name", "no measurement is named", e.loc, p)
        return
    rep.check(args[0] == name or (None if vague(args[0]) else False), "name-index-options", con + "/name",
              "the measurement conducted is %s" % T.show(args[0])[:80], e.loc, p)
    if len(args) < 2:
        rep.check(False, "name-index-options", con + "/index", "no index is given", e.loc, p)
        return
    x = strip(args[1])
    ok = False
    if x[0] == "item" and x[2] == ("const", "index"):
        v = view(x[1], options)
        ok = True if v.get("index") == ("own", "index") or v.get("index") == ("item", options, ("const", "index")) else None if v.vague else False
    elif x[0] in ("mcall", "fn") and T.contains(x, ("const", "index")) and T.contains(x, options):
        ok = True
    elif vague(x):
        ok = None
    rep.check(ok, "name-index-options", con + "/index", "the index given is %s, not that of the measurement" % T.show(x)[:80], e.loc, p)
    rest = args[2:]
    if not rest:
        # only a measurement without further options
        some = None
        for fact in p.facts:
            v = view(fact.term, options)
            if v.base is not None and not v.vague and v.removed <= {"index"} and not v.added:
                some = fact.val
            elif any(x == options for x in T.subterms(fact.term)) and some is None and \
                    any(x[0] in ("fn", "comp") for x in [fact.term]):
                some = "asked"
        rep.check({False: True, None: False, True: False, "asked": None}[some],
                  "name-index-options", con + "/options", "the options of the measurement are not passed on", e.loc, p)
        return
    if len(rest) == 2 and rest[0][0] != "rest":
        rest = [("two", rest[0], rest[1])]
    for r in rest:
        pairs(rep, p, e, con, r, options)


def flatten(t):
    if t[0] in ("list", "tuple") and (not t[1] or isinstance(t[1][0], tuple)):
        out = []
        for x in t[1]:
            out.extend(flatten(x[1]) if x[0] == "star" else [x])
        return out
    if t[0] in ("listcat",):
        return [y for x in t[1:] for y in flatten(x)]
    return [("rest", t)]


def dict_of(t, what):
    """X of keys(X) / vals(X) / items(X)"""
    if t[0] == "elem":
        return dict_of(t[1], what)
    if t[0] == "fn" and t[1] == "list" and len(t[2]) == 1:
        return dict_of(t[2][0], what)
    if t[0] == "list" and len(t) == 2 and len(t[1]) == 1 and t[1][0][0] == "star":
        return dict_of(t[1][0][1], what)
    if what == "key":
        if t[0] == "key":
            return t[1]
        if t[0] == "fn" and t[1] == "keys" and len(t[2]) == 1:
            return t[2][0]
    else:
        if t[0] in ("val", "vals"):
            return t[1]
    return None


def pairs(rep, p, e, con, r, options):
    con += "/options"
    if len(r) == 3:
        r = ("rest", ("comp", "list", ("elem", ("list", r[1:])), (), ()))
    if r[0] != "rest":
        rep.unk("name-index-options", con, T.show(r)[:80], e.loc)
        return
    t = r[1]
    if dict_of(t, "key") is not None or dict_of(t, "val") is not None:
        rep.bad("name-index-options", con, "names and values of the options are not given in pairs", e.loc, p)
        return
    if t[0] == "comp" and t[2][0] == "elem" and t[2][1][0] in ("list", "tuple") and len(t[2][1][1]) == 2 and t[4]:
        for c in flat_and(t[4]):
            x = c
            while x[0] in ("not", "bool"):
                x = x[1]
            src = dict_of(x, "val") if x[0] in ("val", "vals", "elem") else None
            if src is not None and base_of(src) == options:
                rep.bad("name-index-options", con, "options are left out depending on their value", e.loc, p)
                return
    if t[0] == "comp" and t[2][0] == "elem" and t[2][1][0] in ("list", "tuple") and len(t[2][1][1]) == 2 and not t[4]:
        k, v = t[2][1][1]
        dk, dv = dict_of(k, "key"), dict_of(strip(v), "val")
        if dk is None and dict_of(strip(k), "val") is not None and dict_of(v, "key") is not None:
            rep.bad("name-index-options", con, "the value is given before the name", e.loc, p)
            return
        if dk is not None and dv is not None:
            wk, wv = view(dk, options), view(dv, options)
            if wk.vague or wv.vague or wk.base is None or wv.base is None:
                rep.unk("name-index-options", con, T.show(t)[:80], e.loc)
                return
            bad = None
            if wk.wrong or wv.wrong:
                bad = (wk.wrong + wv.wrong)[0]
            elif wk.removed != wv.removed or set(wk.added) != set(wv.added):
                bad = "the names and the values come from different options"
            elif wk.removed - {"index"}:
                bad = "the option %s is left out" % sorted(wk.removed - {"index"})[0]
            elif wk.get("index") is not None:
                bad = "the index is given once more as an option"
            else:
                for n, x in wv.added.items():
                    if x != ("own", n) and not vague(x):
                        bad = "the option %s is given the value %s" % (n, T.show(x)[:60])
            rep.check(bad is None, "name-index-options", con, bad, e.loc, p)
            return
    rep.unk("name-index-options", con, T.show(t)[:80], e.loc)


def result(rep, p, con, n, e):
    r = p.ret
    con = "%s/%s" % (con, n)
    got = [x for x in T.subterms(r) if x[0] == "mcall" and x[1] == e.recv]
    if not got:
        rep.check(None if vague(r) else False, "result", con, "the result of the measurement is not returned", p.loc, p)
        return
    fields = [x[2] for x in seq(r) if x[0] == "attr"] if r[0] == "fn" and r[1] in ("array", "asarray") else None
    if n in POINTS:
        rep.check(True if fields is not None and tuple(fields) == POINTS[n] else None if fields is None and r[0] != "fn" else False, "result", con,
                  "the position %s is expected, %s is returned" % (POINTS[n], T.show(r)[:100]), p.loc, p)
    else:
        whole = r[0] == "fn" and r[1] == "Series" or r[0] == "mcall"
        rep.check(True if whole else None if fields is None else False, "result", con, "only %s of the result is returned" % (fields,), p.loc, p)


def seq(r):
    a = r[2][0] if r[2] else r
    return a[1] if a[0] in ("list", "tuple") else ()


# -- DQD --------------------------------------------------------------------------------------------------------------
def legacy(ctx):
    rep, prog = ctx.rep, ctx.prog
    cls = prog.cls("LegacyDQDRefactored")
    f = prog.method(cls, "measure")
    m = ("param", f.params()[0][1])
    name, options = ("attr", m, "name"), ("attr", m, "options")
    i, ps = ctx.run(cls, "measure")
    ms = m_functions(ctx)
    con = "LegacyDQDRefactored.measure"
    defaults = default_options(prog)
    names = list(SCANS)
    for n in defaults:
        if n not in names:
            names.append(n)
    done = {}
    for p in ps:
        calls = [e for e in p.events if e.kind == "call" and e.recv == ("attr", ENGINE, "qtune")]
        mine = [n for n in names if consistent(p, name, n, names)]
        other = consistent(p, name, "some other name", names)
        decided = mine if not other else []
        if not decided:
            if not mine:
                rep.check(p.kind == "raise" and not calls, "unknown-refused", con + "/unknown name", "a measurement that is not known is %s" %
                          ("conducted" if calls else "not refused"), p.loc, p)
                continue
        if p.kind == "raise":
            continue
        for n in mine if not decided else decided:
            c = "%s/%s" % (con, n)
            if len(calls) != 1:
                rep.check(False if not vague(p.ret) else None, "own-function", c, "%d MATLAB functions conduct the measurement" % len(calls), p.loc, p)
                continue
            e = calls[0]
            done[n] = True
            if n in SCANS:
                rep.check(e.name == SCANS[n] if decided else None if e.name != SCANS[n] else True, "own-function", c,
                          "the measurement %s is conducted by %s" % (n, e.name), e.loc, p)
            if not T.contains(p.ret, e.res) if e.res is not None else e.name not in T.show(p.ret):
                rep.check(None if vague(p.ret) else False, "result", c, "the result of the measurement is not returned", p.loc, p)
            v = view(e.args[0], options) if e.args else View()
            if v.vague:
                rep.unk("own-options", c, "%s" % T.show(e.args[0])[:80] if e.args else "", e.loc)
                continue
            bad = v.wrong[0] if v.wrong else None
            for k, x in v.added.items():
                if k == "file_name":
                    fresh = any(y[0] == "mcall" and y[2] == "get_file_name" for y in T.subterms(x)) or "strftime" in T.show(x) or \
                        "time" in T.show(x)
                    if not fresh and not vague(x):
                        bad = "the data is always stored as %s" % T.show(x)[:60]
                elif x[0] == "own" and x[1] != k:
                    bad = "%s is given the value of %s" % (k, x[1])
                elif x == ("item", options, ("const", k)) or x[0] == "own":
                    pass
                elif T.is_const(x) and k in (defaults.get(n) or {}) and v.base is not None:
                    bad = "%s is always %s" % (k, T.show(x))
            lost = sorted(k for k in v.removed if k in (defaults.get(n) or {}))
            if lost:
                bad = "the option %s is left out" % lost[0]
            rep.check(bad is None, "own-options", c, bad, e.loc, p)
            mf = ms.get(e.name)
            if mf is None:
                rep.check(False if ms else None, "matlab-fields", c, "the package has no MATLAB function %s" % e.name, e.loc, p)
                continue
            if len(e.args) > len(mf.params):
                rep.bad("matlab-fields", c, "%s takes %d arguments" % (e.name, len(mf.params)), e.loc, p)
            missing = sorted(k for k in mf.fields(0) if v.get(k) is None or (v.get(k)[0] == "own" and k not in v.added and
                                                                             n in defaults and k not in defaults[n]))
            rep.check(not missing, "matlab-fields", c, missing and "%s reads %s, which is not given" % (e.name, missing[0]), e.loc, p)
    for n in names:
        if n not in done:
            rep.bad("own-function", "%s/%s" % (con, n), "the measurement %s is never conducted" % n)
    an = AllHits(prog)
    unchanged(ctx, an, cls, "measure")


def default_options(prog):
    """scans that every double dot declares: name -> option names"""
    out = {}
    c = prog.cls("BasicDQD")
    for k, v in c.attrs.items():
        if isinstance(v, ast.Call) and getattr(v.func, "id", getattr(v.func, "attr", "")) == "Measurement":
            n = v.args[0].value if v.args and isinstance(v.args[0], ast.Constant) else None
            kws = {x.arg: x.value for x in v.keywords}
            if n is None and isinstance(kws.get("name"), ast.Constant):
                n = kws.pop("name").value
            if n is not None and None not in kws:
                out[n] = set(kws)
    return out


RULES = {
    "C45": (c45, "Symbolic evaluation of the measure methods of all backends per measurement name: receiver and arguments of the "
            "conducting call as terms, dictionaries decoded into options removed / replaced / added, fields read by the called MATLAB "
            "functions against the options supplied, alias analysis for changes of the measurement."),
}

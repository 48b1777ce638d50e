"""C18-C20, C35: the history of a tuning run."""
import re
import re._parser as sre

from .common import *
from ..terms import const, fn, TRUE, FALSE, NONE
from . import evaluators as EVAL

EXTRACT = ("extract_voltages_from_hierarchy", "extract_parameters_from_hierarchy", "extract_gradients_from_hierarchy")
READ = ("read_autotuner_to_data_frame", "read_evaluator_data_from_autotuner")
A = ("param", "autotuner")
ZERO, LAST = const(0), const(-1)


def attr(t, name):
    return ("attr", t, name)


def bare(t):
    """without wrappers that keep the labelled values"""
    while True:
        if t[0] == "fn" and t[1] in ("copy", "Series", "pandas.Series", ".sort_index", "sorted", "list", "dict") and t[2]:
            t = t[2][0]
        else:
            return t


class Hist:
    def __init__(self, ctx):
        self.ctx, self.rep = ctx, ctx.rep
        self.cls = ctx.prog.cls("History")
        self.rows = self.attribute("number_of_stored_iterations", "get", lambda t: t[0] == "fn" and t[1] == "len")
        self.paths = self.attribute("get_reload_path", "method", lambda t: t[0] == "item")
        self.raw = self.attribute("evaluator_names", "get", lambda t: t[0] == "attr")
        self.me = A
        f = ctx.prog.method(self.cls, "append_autotuner")
        if f is not None:
            self.me = ("param", f.params()[0][1])

    def attribute(self, name, kind, ok):
        """the attribute of the history behind an accessor"""
        i, ps = self.ctx.run(self.cls, name, kind)
        if i is None:
            return None
        found = {x[2] for p in ps if p.kind == "ret" and p.ret is not None for x in T.subterms(p.ret)
                 if x[0] == "attr" and x[1] == SELF}
        return found.pop() if len(found) == 1 else None

    def appends(self):
        i, ps = self.ctx.run(self.cls, "append_autotuner", opaque=READ + EXTRACT[:1])
        return i, [p for p in ps if p.kind == "ret"]

    def layers(self, t, init):
        """(number of rows added, replaced?, outermost added element); None if not understood"""
        n, rep_, top = 0, [], None
        while t != init:
            if t[0] == "append" and len(t) == 3:
                top = t[2] if top is None else top
                n, t = n + 1, t[1]
            elif t[0] == "fn" and t[1] == "concat2" and len(t[2]) == 2:
                top = t[2][1] if top is None else top
                n, t = n + 1, t[2][0]
            elif t[0] == "fn" and t[1].split(".")[-1] == "concat" and t[2] and t[2][0][0] == "list" and len(t[2][0][1]) == 2 and \
                    dict(t[3]).get("axis", ZERO) == ZERO:
                top = t[2][0][1][1] if top is None else top
                n, t = n + 1, t[2][0][1][0]
            elif t[0] == "listcat" and len(t[1]) == 2 and t[1][1][0] == "list" and len(t[1][1][1]) == 1:
                top = t[1][1][1][0] if top is None else top
                n, t = n + 1, t[1][0]
            elif t[0] == "setitem":
                rep_.append((t[2], t[3], n))
                t = t[1]
            elif t[0] == "setloc":
                rep_.append((t[2], t[-1], n))
                t = t[1]
            elif t[0] == "fn" and t[1] in ("list", "copy", ".reset_index", ".sort_index") and t[2]:
                t = t[2][0]
            else:
                return None
        return n, rep_, top


def is_read(t, name):
    while t[0] in ("setitem", "setloc"):
        t = t[1]
    return t[0] in ("call", "mcall") and name in t[1:3]


def equality(h, p):
    """(fact, verdict "same voltages"?, how) of the comparison of recorded with new voltages on a path"""
    out = []
    for f in p.facts:
        ts = list(T.subterms(f.term))
        if not any(x[0] == "call" and x[1] == EXTRACT[0] for x in ts):
            continue
        if any(x[0] in ("call", "mcall") and (x[1] in READ or x[2] in READ) for x in ts) and f.term[0] == "==0":
            continue        # the number of columns read
        t = f.term
        if t[0] == "fn" and t[1] == ".equals":
            out.append((f, f.val, "equals"))
        elif any(x[0] == "fn" and ("allclose" in x[1] or "isclose" in x[1]) for x in ts):
            out.append((f, f.val, "close"))
        elif t[0] == "fn" and t[1] == "all":
            out.append((f, f.val, "all"))
        elif t[0] == "fn" and t[1] == "any":
            out.append((f, not f.val, "any"))
        else:
            out.append((f, None, "other"))
    return out


def c18(ctx):
    rep, h = ctx.rep, Hist(ctx)
    c0 = "History.append_autotuner"
    if None in (h.rows, h.paths, h.raw):
        rep.unk("attributes", "History", "rows, reload paths and evaluator data are not plain attributes")
        return
    i, ps = h.appends()
    if i is None:
        return
    for p in ps:
        init = {a: attr(SELF, a) for a in (h.rows, h.paths, h.raw)}
        lay = {a: h.layers(p.final(a) or ("unk", "none"), init[a]) for a in init}
        if any(v is None for v in lay.values()):
            rep.unk("lockstep", c0, "the new %s are not understood" % [a for a in lay if lay[a] is None], p.loc)
            continue
        ns = {a: lay[a][0] for a in lay}
        rep.check(len(set(ns.values())) == 1, "lockstep", c0,
                  "one append adds %d rows, %d reload paths and %d entries of evaluator data" %
                  (ns[h.rows], ns[h.paths], ns[h.raw]), p.loc, p)
        empty = p.i.decide(p.st, T.cmp("==", fn("len", init[h.rows]), ZERO))
        eqs = equality(h, p)
        n = ns[h.rows]
        if not eqs:
            if empty:
                rep.check(n == 1, "first-row", c0, "the first autotuner opens %d rows" % n, p.loc, p)
            else:
                rep.check(None if any(vague(f.term) for f in p.facts) else False, "row-decision", c0,
                          "whether a row is opened does not depend on the gate voltages", p.loc, p)
            continue
        f, same, how = eqs[-1]
        if how == "close":
            rep.bad("row-decision", c0, "rows are merged although the voltages differ slightly: %s" % T.show(f.term)[:200],
                    f.loc, p)
            continue
        if same is None:
            rep.unk("row-decision", c0, "comparison %s not understood" % T.show(f.term)[:200], p.loc)
            continue
        compare(h, rep, c0, f, how, init, p)
        if empty:
            if same:
                rep.check(n == 1, "first-row", c0, "the first autotuner opens %d rows" % n, p.loc, p)
            continue
        rep.check(n == (0 if same else 1), "row-decision", c0,
                  "%s voltages open %d rows" % ("unchanged" if same else "changed", n), p.loc, p)
        # the path
        path = ("param", ctx.prog.method(h.cls, "append_autotuner").params()[0][2])
        want = [path, attr(h.me, "last_save_file")]
        none = p.i.decide(p.st, T.is_none(path))
        got = lay[h.paths]
        val = got[2] if n else (got[1][0][1] if got[1] else None)
        if val is None:
            rep.bad("path", c0, "the row is updated but keeps its old reload path", p.loc, p)
        else:
            w = want[1] if none else want[0]
            if val[0] == "boolop" or none is None:
                v = None
            else:
                v = is_value(p, val, w)
            rep.check(v, "path", c0, "the row gets the reload path %s instead of %s" % (T.show(val)[:100], T.show(w)),
                      p.loc, p)
        if not n and got[1]:
            at = got[1][0][0]
            v = at == LAST or (at == T.sub(fn("len", init[h.paths]), const(1)))
            if not v:
                v = False if T.is_num(at) else None
            rep.check(v, "path", c0, "reload path number %s is replaced instead of the last" % T.show(at)[:80], p.loc, p)
        # contents
        for a, r in ((h.rows, READ[0]), (h.raw, READ[1])):
            n_, reps, top = lay[a]
            if n_ and n:
                v = is_read(top, r)
                rep.check(True if v else (False if any(is_read(top, x) for x in READ) else None), "contents", c0 + "/" + r,
                          "the new row holds %s" % T.show(top)[:150], p.loc, p)
            if not n:
                for at, val, _ in reps:
                    x = at
                    if x[0] == "item" and x[1][0] == "attr" and x[1][2] == "index":
                        x = x[2]
                    v = True if x == LAST else (False if T.is_num(x) else None)
                    rep.check(v, "same-row", c0 + "/" + a, "row %s is overwritten instead of the last" % T.show(at)[:100],
                              p.loc, p)
                if a == h.rows:
                    rep.check(bool(reps) or None, "same-row", c0 + "/" + a, "nothing is written to the row", p.loc, p)
    rep.need("row-decision", 2)
    rep.need("lockstep", 3)
    # what is appended as one row is one row
    for name, kind in ((READ[0], "method"), (READ[1], "func")):
        i, qs = run_read(ctx, h, name, kind)
        for q in qs or ():
            if q.kind == "ret":
                n = row_count(q.ret)
                rep.check(None if n is None else n == 1, "one-row", "History.append_autotuner <- " + name,
                          "what is appended as one row is a table of %s rows: %s" % (n, T.show(q.ret)[:150]), q.loc, q)
    rep.need("one-row", 2)
    # the accessors use the row number as it is
    i, qs = ctx.run(h.cls, "get_reload_path")
    if i is not None:
        par = ("param", ctx.prog.method(h.cls, "get_reload_path").params()[0][1])
        for q in qs:
            if q.kind == "ret":
                v = is_value(q, q.ret, T.item(attr(SELF, h.paths), par))
                rep.check(v, "lookup", "History.get_reload_path", "row i is looked up as %s" % T.show(q.ret)[:150], q.loc, q)
    reload_row(ctx, h)


def run_read(ctx, h, name, kind):
    if kind == "method":
        return ctx.run(h.cls, name, opaque=EXTRACT)
    fs = [x for x in ctx.prog.all_funcs() if x.cls is None and x.qual.split(".")[-1] == name]
    if not fs:
        raise AnalysisBroken("%s not found" % name)
    return ctx.run_func(fs[0])


def row_count(t):
    """number of rows of a table term; None if not understood"""
    new = False
    while t[0] in ("setitem", "setloc") or t[0] == "fn" and t[1] in ("copy", ".copy", ".astype", ".sort_index", ".sort_values"):
        if t[0] == "setitem":
            new, t = True, t[1]
        elif t[0] == "setloc":
            return None
        else:
            t = t[2][0]
    if t[0] != "fn" or t[1].split(".")[-1] != "DataFrame":
        return None
    kw = dict(t[3])
    data = t[2][0] if t[2] else kw.get("data")
    ix = t[2][1] if len(t[2]) > 1 else kw.get("index")
    if ix is not None and ix != NONE:
        while ix[0] == "fn" and ix[1] in ("list", "tuple", "Index", "pandas.Index") and len(ix[2]) == 1:
            ix = ix[2][0]
        if ix[0] == "fn" and ix[1] == "range" and len(ix[2]) == 1 and T.is_num(ix[2][0]):
            return int(ix[2][0][1])
        return len(ix[1]) if ix[0] in ("list", "tuple") else None
    if data is None or data == NONE or data in (("dict", ()), ("list", ())):
        return None if new else 0
    if data[0] == "list":
        return len(data[1])
    return None


def compare(h, rep, c0, f, how, init, p):
    """recorded last row against the voltages of the autotuner"""
    t = f.term
    pair = t[2][:2] if t[1] == ".equals" else None
    if pair is None:
        rows = [x for x in T.subterms(t) if x[0] == "iloc"]
        for x in rows:
            if T.contains(x[1], init[h.rows]) and T.is_num(x[2]) and x[2] != LAST:
                rep.bad("last-row", c0, "the voltages are compared with row %s" % T.show(x[2]), f.loc, p)
        return
    a, b = pair if T.contains(pair[0], h.me) else pair[::-1]
    ra = b
    order_b = None
    while True:
        if ra[0] == "fn" and ra[1] in (".sort_index",):
            order_b, ra = "sorted", ra[2][0]
        elif ra[0] == "iloc":
            if not T.contains(ra[1], init[h.rows]):
                return
            v = True if ra[2] == LAST else (False if T.is_num(ra[2]) else None)
            rep.check(v, "last-row", c0, "the voltages are compared with row %s of the history" % T.show(ra[2])[:80], f.loc, p)
            ra = ra[1]
        elif ra[0] == "item":
            if order_b is None and ra[2][0] == "fn" and ra[2][1] == "sorted":
                order_b = "sorted"
            if order_b is None and ra[2][0] in ("attr", "fn") and T.contains(ra[2], h.me):
                order_b = "theirs"
            ra = ra[1]
        else:
            break
    if a[0] == "call" and order_b == "sorted":
        rep.bad("order", c0, "the voltages are compared in their own order with a row in sorted order: the row is never found again",
                f.loc, p)
    elif order_b in ("sorted", "theirs"):
        rep.ok("order", c0, f.loc)


def reload_row(ctx, h):
    """the reload widget hands its row number unchanged to both lookups"""
    rep = ctx.rep
    if "ReloadWidget" not in ctx.prog.classes:
        return
    c = ctx.prog.cls("ReloadWidget")
    num = None
    for m, what in (("reload_autotuner", "get_reload_path"), ("reload_voltages", "get_gate_values")):
        if ctx.prog.method(c, m) is None:
            continue
        i, ps = ctx.run(c, m, opaque=(what, "load_auto_tuner", "restart", "set_gate_voltages"))
        if i is None:
            continue
        num = i.initial("tune_run_number")
        for p in ps:
            if what == "get_reload_path":
                for e in p.calls(what):
                    k = e.arg(0)
                    rep.check(is_value(p, k, num), "lookup", "ReloadWidget." + m,
                              "row %s is loaded for the row number chosen" % T.show(k)[:80], e.loc, p)
            else:
                for e in p.calls("set_gate_voltages"):
                    v = e.arg(0, "new_gate_voltages")
                    ks = [x[2] for x in T.subterms(v) if x[0] == "iloc"]
                    rep.check(None if not ks else is_value(p, ks[0], num), "lookup", "ReloadWidget." + m,
                              "row %s is loaded for the row number chosen" % T.show(v)[:120], e.loc, p)


# ------------------------------------------------------------------------------------------------ C19

def c19(ctx):
    rep, h = ctx.rep, Hist(ctx)
    evaluated_range(ctx, h)
    for name, kind in ((READ[0], "method"), (READ[1], "func")):
        read_range(ctx, h, name, kind)
    load_order(ctx, h)
    time_order(ctx)


def evaluated_range(ctx, h):
    rep = ctx.rep
    c0 = "History.append_autotuner"
    i, ps = h.appends()
    if i is None or h.rows is None:
        return
    pend, idx, status = (attr(h.me, x) for x in ("voltages_to_set", "current_tuner_index", "current_tuner_status"))
    rows = attr(SELF, h.rows)
    for p in ps:
        if p.i.decide(p.st, T.cmp("==", fn("len", rows), ZERO)) is not False:
            continue
        reach = p.i.decide(p.st, T.or_(status, T.not_(T.is_none(pend))))
        if reach is None:
            reach = p.i.decide(p.st, ("or", (("and", (status, T.is_none(pend))), T.not_(T.is_none(pend)))))
        if reach is None:
            d = [p.i.decide(p.st, T.is_none(pend)), p.i.decide(p.st, status)]
            reach = True if d[0] is False or d[1] is True else (False if d == [True, False] else None)
        lay = h.layers(p.final(h.rows) or ("unk", "x"), rows)
        stay = None if lay is None else lay[0] == 0
        for e in p.events:
            if e.kind != "call" or e.name not in READ:
                continue
            cc = "%s -> %s" % (c0, e.name)
            end, start = e.arg(2, "end"), e.arg(1, "start")
            rep.check(is_value(p, e.arg(0, "autotuner"), h.me), "range", cc, "another autotuner is read", e.loc, p)
            if end is None or end == NONE:
                rep.bad("range-end", cc, "groups that were not evaluated since the row was opened are read", e.loc, p)
            else:
                want = None if reach is None else (T.add(idx, const(1)) if reach else idx)
                if want is None and end[0] not in ("poly", "attr", "const"):
                    rep.unk("range-end", cc, "end %s not understood" % T.show(end)[:150], e.loc)
                elif want is None:
                    rep.check(None if any(vague(f.term) for f in p.facts) else False, "range-end", cc,
                              "the range ends at %s whether or not the current group was just evaluated" % T.show(end)[:80],
                              e.loc, p)
                else:
                    rep.check(is_value(p, end, want), "range-end", cc,
                              "the range ends at %s although the current group was %sevaluated" %
                              (T.show(end)[:80], "" if reach else "not "), e.loc, p)
            if stay is None:
                rep.unk("range-start", cc, "row decision not understood", e.loc)
            elif stay:
                s = start
                while s is not None and s[0] == "fn" and s[1] == "int":
                    s = s[2][0]
                want = [("iloc", T.item(rows, const("tuner_index")), LAST), T.item(("iloc", rows, LAST), const("tuner_index"))]
                if s is None or s in (NONE, ZERO):
                    v = False
                elif s in want:
                    v = True
                elif s[0] == "iloc" and s[1] == want[0][1] and T.is_num(s[2]):
                    v = False
                elif s[0] == "poly" and any(T.contains(s, w) for w in want):
                    v = False
                elif T.contains(s, h.me):
                    v = False
                else:
                    v = None
                rep.check(v, "range-start", cc, "a row that is continued is read from group %s instead of its recorded position" %
                          (T.show(s)[:100] if s else "0"), e.loc, p)
            else:
                v = start is None or start in (ZERO, NONE)
                rep.check(True if v else (False if T.is_num(start) or T.contains(start, rows) else None), "range-start", cc,
                          "a new row is read from group %s on" % (T.show(start)[:100] if start else ""), e.loc, p)
    rep.need("range-end", 4)
    rep.need("range-start", 4)


def read_range(ctx, h, name, kind):
    """the values come from tuning_hierarchy[start:end]"""
    rep = ctx.rep
    if kind == "method":
        f = ctx.prog.method(h.cls, name)
        i, ps = ctx.run(h.cls, name, opaque=EXTRACT)
        names = f.params()[0][1:]
    else:
        fs = [x for x in ctx.prog.all_funcs() if x.cls is None and x.qual.split(".")[-1] == name]
        if not fs:
            raise AnalysisBroken("%s not found" % name)
        f = fs[0]
        i, ps = ctx.run_func(f)
        names = f.params()[0]
    if i is None or len(names) < 3:
        return
    me, start, end = (("param", x) for x in names[:3])
    hier = attr(me, "tuning_hierarchy")
    c0 = f.qual

    def judge(p, t, loc, what):
        """t: a list of groups"""
        none = p.i.decide(p.st, T.is_none(end))
        whole = t == hier
        if t[0] == "item" and t[1] == hier and t[2][0] == "slice":
            a, b, step = t[2][1:4]
            raw = a
            while raw[0] == "fn" and raw[1] == "int":
                raw = raw[2][0]
            if raw == start and a == start:
                rep.bad("range-int", c0, "the recorded position is a float and no index: %s" % T.show(t)[:100], loc, p)
            v = True if raw == start else (False if raw in (NONE, ZERO) or T.contains(raw, start) else None)
            rep.check(v, "range-used", c0 + "/" + what, "the groups read begin at %s instead of the start asked for" %
                      T.show(a)[:60], loc, p)
            if none:
                v = True if b in (NONE, fn("len", hier), end) else (False if not vague(b) else None)
            else:
                v = True if b == end or (b[0] == "fn" and b[1] == "int" and b[2][0] == end) else \
                    (False if b in (NONE, fn("len", hier)) or T.contains(b, end) and b[0] == "poly" else None)
            rep.check(v, "range-used", c0 + "/" + what, "the groups read end at %s instead of the end asked for" %
                      T.show(b)[:60], loc, p)
            rep.check(True if step == NONE else False, "range-used", c0 + "/" + what, "not all groups are read", loc, p)
        elif whole:
            empty = h.rows and p.i.decide(p.st, T.cmp("==", fn("len", attr(SELF, h.rows)), ZERO))
            v = True if (kind == "method" and empty) or what == "voltages" else False
            rep.check(v, "range-used", c0 + "/" + what, "all groups are read, not only those evaluated", loc, p)
        else:
            rep.unk("range-used", c0 + "/" + what, "groups %s not understood" % T.show(t)[:120], loc)

    for p in ps:
        if p.kind != "ret":
            continue
        if kind == "method":
            for e in p.events:
                if e.kind == "call" and e.name in EXTRACT:
                    what = {EXTRACT[0]: "voltages", EXTRACT[1]: "parameters", EXTRACT[2]: "gradients"}[e.name]
                    if what == "voltages":
                        v = is_value(p, e.arg(0), hier)
                        rep.check(v, "voltages", c0, "the voltages are read from %s instead of the first group" %
                                  T.show(e.arg(0))[:100], e.loc, p)
                    else:
                        judge(p, e.arg(0), e.loc, what)
            t = p.ret
            here = [x for x in T.subterms(t) if x[0] == "dict" and any(k == const("tuner_index") for k, _ in x[1])]
            vals = [v for x in here for k, v in x[1] if k == const("tuner_index")]
            vals += [x[3] for x in T.subterms(t) if x[0] == "setitem" and x[2] == const("tuner_index")]
            vals += [dict(x[3]).get("tuner_index") for x in T.subterms(t) if x[0] == "fn" and len(x) > 3 and
                     isinstance(x[3], tuple) and "tuner_index" in dict(x[3])]
            if not vals:
                rep.check(None if vague(t) else False, "position", c0, "the row does not record the position in the hierarchy",
                          p.loc, p)
            for v in vals:
                rep.check(is_value(p, v, attr(me, "current_tuner_index")), "position", c0,
                          "the row records %s as position" % T.show(v)[:80], p.loc, p)
        else:
            groups = {}
            for e in p.events:
                if e.kind != "mutate" or e.name != "setitem":
                    continue
                for x in T.subterms(("tuple", e.args)):
                    if x[0] == "elem" and (x[1] == hier or x[1][0] == "item" and x[1][1] == hier):
                        groups[x[1]] = e
                key, val = e.args[0], e.args[1]
                if key[0] == "attr" and key[2] == "name":
                    subj = key[1]
                    calls = [x for x in T.subterms(val) if x[0] in ("mcall", "call") and x[2] == "to_hdf5"]
                    v = None if not calls else all(x[1] == subj for x in calls)
                    rep.check(v, "raw-data", c0, "the raw data of %s is filed under the name of %s" %
                              (T.show(val)[:100], T.show(subj)[:100]), e.loc, p)
                    have = p.i.decide(p.st, T.is_none(attr(subj, "raw_data")))
                    if have is True:
                        rep.bad("raw-data", c0, "only evaluators without raw data are recorded", e.loc, p)
                for x in T.subterms(key):
                    if x[0] == "attr" and x[2] == "expensive_evaluators":
                        d = p.i.decide(p.st, attr(x[1], "cheap_evaluation_only"))
                        if d is None and not any(vague(f.term) or T.contains(f.term, x[1]) and not T.contains(f.term, x) and
                                                 f.term[0] != "isinstance" for f in p.facts):
                            d = True        # nothing but the presence of the evaluators was asked
                        rep.check(None if d is None else not d, "raw-data", c0,
                                  "expensive evaluators that did not run are recorded", e.loc, p)
            for g, e in groups.items():
                judge(p, g, e.loc, "raw data")
    rep.need("range-used", 2)


def strip_sorted(t):
    """(source, ordering) of a sequence"""
    order = "given"
    while True:
        if t[0] == "fn" and t[1] == "sorted":
            kw = dict(t[3]) if len(t) > 3 and isinstance(t[3], tuple) else {}
            o = "sorted"
            if kw.get("reverse") not in (None, FALSE):
                o = "reversed"
            if kw.get("key") not in (None, NONE):
                k = repr(kw["key"])
                o = "time" if "getmtime" in k or "getctime" in k else ("given" if "basename" not in k else "sorted")
                if o == "given":
                    o = "vague"
            if order == "given":
                order = o
            elif order == "reversed" and o == "reversed":
                order = "sorted"
            t = t[2][0]
        elif t[0] == "fn" and t[1] in ("list", "tuple", "copy") and t[2]:
            t = t[2][0]
        elif t[0] == "fn" and t[1] == "reversed" and t[2]:
            src, o = strip_sorted(t[2][0])
            return src, {"sorted": "reversed", "reversed": "sorted"}.get(o, "given") if order == "given" else order
        elif t[0] == "fn" and t[1] == "set" and t[2]:
            order = "given" if order == "given" else order
            t = t[2][0]
        else:
            return t, order


def load_order(ctx, h):
    rep = ctx.rep
    c0 = "History.load_directory"
    f = ctx.prog.method(h.cls, "load_directory")
    if f is None:
        raise AnalysisBroken("History.load_directory not found")
    par = ("param", f.params()[0][1])
    i, ps = ctx.run(h.cls, "load_directory", opaque=("append_autotuner", "read_iter", "from_hdf5", "load_file"))
    if i is None:
        return
    n = 0
    for p in ps:
        if p.kind != "ret":
            continue
        calls = [e for e in p.calls("append_autotuner") + p.calls("load_file")]
        if not calls:
            if p.facts:
                rep.unk("every-file", c0, "a path that loads nothing", p.loc)
            else:
                rep.bad("every-file", c0, "no file is appended", p.loc, p)
            continue
        n += 1
        rep.check(len(calls) == 1, "every-file", c0, "a file is appended %d times" % len(calls), calls[0].loc, p)
        if any(x.loops for x in p.facts):
            rep.unk("every-file", c0, "files are appended under a condition", p.loc)
        e = calls[0]
        if not e.loops:
            rep.bad("every-file", c0, "only one file is appended", e.loc, p)
            continue
        if e.name == "load_file":
            lists, names = [x[1] for x in T.subterms(e.arg(0)) if x[0] == "elem"], None
        else:
            data, file = e.arg(0, "autotuner"), e.arg(1, "path")
            if file is None or file == NONE:
                rep.bad("own-path", c0, "rows are recorded without the path of their file", e.loc, p)
                continue
            lists = [x[1] for x in T.subterms(file) if x[0] == "elem"]
            reads = [x for x in T.subterms(data) if x[0] in ("mcall", "call") and ("read_iter" in x[1:3] or "from_hdf5" in x[1:3])]
            for r in reads:
                args = r[3] if r[0] == "mcall" else r[2]
                if not args:
                    continue
                got = args[0]
                if "from_hdf5" in r[1:3]:
                    src_elem = got
                elif got[0] == "comp" and got[1] in ("list", "gen", "set", "tuple"):
                    src_elem = got[2]
                    if len(got) > 4 and got[4]:
                        rep.unk("every-file", c0, "files are filtered", e.loc)
                    if len(got[3]) != 1:
                        src_elem = None
                else:
                    src_elem = T.item(got, ("any",)) if False else ("elem", got)
                if src_elem is None or vague(file):
                    rep.unk("own-path", c0, "file list not understood", e.loc)
                else:
                    # the same enumeration, element by element
                    same = True if src_elem == file else None
                    if same is None and [x[1] for x in T.subterms(src_elem) if x[0] == "elem"] != lists:
                        a = [strip_sorted(x[1]) for x in T.subterms(src_elem) if x[0] == "elem"]
                        b = [strip_sorted(x) for x in lists]
                        if len(a) == len(b) == 1 and a[0][0] == b[0][0] and a[0][1] != b[0][1]:
                            same = False
                        elif len(a) == len(b) == 1 and a[0][0] == b[0][0] and a[0][1] in ("sorted", "reversed"):
                            same = True if a[0][1] == b[0][1] else False
                    rep.check(same, "own-path", c0, "the state of file %s is recorded under the path %s" %
                              (T.show(src_elem)[:100], T.show(file)[:100]), e.loc, p)
            if not reads:
                rep.unk("own-path", c0, "origin of the loaded data not understood", e.loc)
            full = file
            v = None
            if file[0] == "fn" and file[1] == "os.path.join":
                v = is_value(p, file[2][0], par)
            elif file[0] == "elem":
                v = False if strip_sorted(file[1])[0][0] == "call" and strip_sorted(file[1])[0][1].endswith("listdir") else None
            rep.check(v, "own-path", c0 + "/join", "the reload path is %s" % T.show(full)[:100], e.loc, p)
        for s in lists:
            src, order = strip_sorted(s)
            if src[0] == "comp" and len(src[3]) == 1 and order == "given":
                src, order = strip_sorted(src[3][0])
            elif src[0] == "comp" and len(src[3]) == 1:
                src = strip_sorted(src[3][0])[0]
            if src[0] == "item" and src[2][0] == "slice":
                rep.bad("every-file", c0, "only a part of the directory is loaded: %s" % T.show(s)[:100], e.loc, p)
                continue
            isdir = src[0] in ("call", "mcall") and str(src[1]).endswith(("listdir", "scandir")) or \
                src[0] == "fn" and str(src[1]).endswith(("listdir", "glob"))
            if not isdir:
                rep.unk("order", c0, "source %s not understood" % T.show(src)[:100], e.loc)
            else:
                rep.check({"sorted": True, "vague": None}.get(order, False), "order", c0,
                          "files are appended in %s order" % {"given": "the directory's own", "reversed": "reverse",
                                                              "time": "modification"}.get(order, order), e.loc, p)
    if not n:
        rep.unk("every-file", c0, "no appending path")
    rep.need("order")
    rep.need("own-path")
    # a single file
    i, ps = ctx.run(h.cls, "load_file", opaque=("append_autotuner", "from_hdf5"))
    if i is not None:
        f = ctx.prog.method(h.cls, "load_file")
        par = ("param", f.params()[0][1])
        for p in ps:
            for e in p.calls("append_autotuner"):
                v = e.arg(1, "path")
                rep.check(False if v is None or v == NONE else is_value(p, v, par), "own-path", "History.load_file",
                          "the row is recorded without the path of its file", e.loc, p)
    # results in the order of the files
    c = ctx.prog.classes.get("ParallelHDF5Reader")
    if c is not None and ctx.prog.method(c, "read_iter") is not None:
        i, ps = ctx.run(c, "read_iter", opaque=("from_hdf5",))
        f = ctx.prog.method(c, "read_iter")
        par = ("param", f.params()[0][1])
        for p in ps or ():
            for e in p.events:
                txt = " ".join(T.show(a) for a in e.args) + (e.name or "")
                if "as_completed" in txt or "imap_unordered" in txt:
                    rep.bad("order", "ParallelHDF5Reader.read_iter", "results arrive in the order of completion", e.loc, p)
                if e.kind == "yield" and e.args:
                    t = e.args[0]
                    maps = [x for x in T.subterms(t) if x[0] in ("fn", "mcall") and str(x[1] if x[0] == "fn" else x[2]).split(".")[-1] == "map"]
                    for x in maps:
                        args = x[2] if x[0] == "fn" else x[3]
                        v = par in args or None
                        src = [strip_sorted(a) for a in args]
                        if v is None and any(s[0] == par and s[1] != "given" for s in src):
                            v = False
                        rep.check(v, "order", "ParallelHDF5Reader.read_iter", "the files are read in another order", e.loc, p)


WIDTH = {"Y": 4, "m": 2, "d": 2, "H": 2, "M": 2, "S": 2, "f": 6}


def time_order(ctx):
    """text order of the time stamps = order of time"""
    rep = ctx.rep
    fs = [x for x in ctx.prog.all_funcs() if x.cls is None and x.qual == "time_string"]
    if not fs:
        raise AnalysisBroken("time_string not found")
    i, ps = ctx.run_func(fs[0])
    for p in ps or ():
        if p.kind != "ret":
            continue
        fmt = [x for x in T.subterms(p.ret) if x[0] == "const" and isinstance(x[1], str) and "%" in x[1]]
        if len(fmt) != 1:
            rep.unk("time-order", "time_string", "format not understood: %s" % T.show(p.ret)[:150], p.loc)
            continue
        toks = re.findall(r"%-?.|[^%]", fmt[0][1])
        fields = [x for x in toks if x[0] == "%" and x != "%%"]
        order = "YmdHMSf"
        ok = [x[-1] for x in fields] == list(order) and all(len(x) == 2 for x in fields)
        known = all(x[-1] in "YmdHMSfyIjBbpaAwUWZzcxX" for x in fields)
        if not ok and "".join(x[-1] for x in fields) in ("YjHMSf", "sf"):
            ok = True
        rep.check(True if ok else (False if known else None), "time-order", "time_string",
                  "names with the format %r do not sort in the order of time" % fmt[0][1], p.loc, p)
        # forward running clock
        for x in T.subterms(p.ret):
            if x[0] == "poly":
                for mono, k in x[1]:
                    if len(mono) == 1 and "perf_counter" in repr(mono[0][0]) and mono[0][0][0] in ("call", "fn", "mcall"):
                        rep.check(k > 0, "time-order", "high_res_datetime", "the clock runs backwards", p.loc, p)
    rep.need("time-order")


# ------------------------------------------------------------------------------------------------ C20

P_, G_, H_ = ("P",), ("G", 1), ("G", 2)


def segments(parts):
    """list of '#'-separated segments of a column name: constants and variables; None if a variable is not a segment"""
    segs, cur = [], []
    for x in parts:
        if x[0] == "const" and isinstance(x[1], str):
            pieces = x[1].split("#")
            for k, s in enumerate(pieces):
                if k:
                    segs.append(cur)
                    cur = []
                if s:
                    cur.append(("const", s))
        else:
            cur.append(x)
    segs.append(cur)
    return segs


def writer(ctx, h):
    """column templates written: {kind: [(segments, value, key term)]}"""
    i, ps = ctx.run(h.cls, READ[0], opaque=EXTRACT)
    out = {}
    if i is None:
        return out
    for p in ps:
        if p.kind != "ret":
            continue
        # only pairs key -> value of comprehensions directly in the row
        for c in T.subterms(p.ret):
            if c[0] != "comp" or c[1] != "dict" or c[2][0] != "tuple":
                continue
            k, v = c[2][1][:2] if isinstance(c[2][1], tuple) and len(c[2][1]) >= 2 else (None, None)
            if k is not None and k[0] == "const" and isinstance(k[1], str) and source(v):
                k = ("cat", k)
            if k is None or k[0] != "cat":
                continue
            out.setdefault((k, v), p)
    return out


def source(t):
    """(extractor, component, depth) of key_of/val_of chains"""
    depth = 0
    while t[0] in ("key", "val", "elem"):
        t = t[1]
        depth += 1
    if t[0] == "item" and t[1][0] == "call" and t[1][1] in EXTRACT and T.is_num(t[2]):
        return t[1][1], int(t[2][1]), depth
    return None


KINDS = {(EXTRACT[1], 1): "variance", (EXTRACT[2], 0): "gradient", (EXTRACT[2], 1): "covariance", (EXTRACT[1], 0): "parameter"}


def c20(ctx):
    rep, h = ctx.rep, Hist(ctx)
    templates = {}
    for (k, v), p in writer(ctx, h).items():
        sv = source(v)
        vs = [x for x in k[1:] if x[0] != "const"]
        sk = [source(x) for x in vs]
        lossy = [x for x, s in zip(vs, sk) if s is None and x[0] == "fn" and x[1].split(".")[-1] in
                 ("min", "max", "lower", "upper", "strip", "capitalize", "abs", "len") and any(source(y) for y in x[2])]
        lossy += [x for x, s in zip(vs, sk) if s is None and x[0] == "item" and x[2][0] == "slice" and source(x[1])]
        if sv is not None and lossy:
            rep.bad("complete", "History column of a " + str(KINDS.get(sv[:2])),
                    "the name %s does not tell all values apart" % T.show(k)[:100], p.loc, p)
        if sv is None or None in sk:
            rep.unk("written", "column %s" % T.show(k)[:100], "origin not understood", p.loc)
            continue
        kind = KINDS.get(sv[:2])
        c0 = "History column of a " + str(kind)
        rep.check(all(s[:2] == sv[:2] for s in sk), "written", c0, "values of %s are filed under names of %s" %
                  (T.show(v)[:100], T.show(k)[:100]), p.loc, p)
        segs = segments(k[1:])
        # names: the parameter first, then the gates, each a segment of its own
        mixed = [s for s in segs if len(s) != 1]
        rep.check(not mixed, "separated", c0, "names run into each other in %s: different parameters and gates share a column" %
                  T.show(k)[:100], p.loc, p)
        if mixed:
            continue
        # every level of the value's keys is part of the name
        want = sv[2]
        depths = sorted(s[2] for s in sk)
        rep.check(depths == list(range(1, want + 1)), "complete", c0,
                  "the name %s does not tell all values apart" % T.show(k)[:100], p.loc, p)
        pat = [x[0] if x[0][0] == "const" else ("var", source(x[0])[2]) for x in segs]
        old = templates.setdefault(kind, (pat, p))
        rep.check(old[0] == pat, "written", c0, "two different names for one kind of column", p.loc, p)
    for want in ("variance", "gradient", "covariance"):
        if want not in templates:
            rep.unk("written", "History column of a " + want, "not found")
    ks = sorted(templates, key=str)
    for a in ks:
        for b in ks:
            if a < b:
                pa, pb = templates[a][0], templates[b][0]
                clash = len(pa) == len(pb) and all(x == y or x[0] == "var" or y[0] == "var" for x, y in zip(pa, pb))
                rep.check(not clash, "disjoint", "History columns of a %s and a %s" % (a, b),
                          "one name can be both: %s and %s" % (pa, pb), templates[a][1].loc)
        rep.check(any(x[0] == "const" or len(templates[a][0]) > 1 for x in templates[a][0]), "disjoint",
                  "History columns of a %s" % a, "the column has the name of a parameter", templates[a][1].loc)
    accessors(ctx, h, templates)


def accessors(ctx, h, templates):
    rep = ctx.rep
    i, ps = ctx.run(h.cls, "get_parameter_std")
    if i is not None and "variance" in templates:
        par = ("param", ctx.prog.method(h.cls, "get_parameter_std").params()[0][1])
        for p in ps:
            if p.kind != "ret":
                continue
            cats = [x for x in T.subterms(p.ret) if x[0] == "item" and x[1] == attr(SELF, h.rows)]
            if len(cats) != 1 or cats[0][2][0] != "cat":
                rep.check(None if len(cats) != 1 or vague(cats[0][2]) else False, "accessor", "History.get_parameter_std",
                          "column %s is read" % T.show(p.ret)[:100], p.loc, p)
                continue
            segs = segments(cats[0][2][1:])
            got = [x[0] if len(x) == 1 else None for x in segs]
            pat = templates["variance"][0]
            v = len(got) == len(pat) and all((w[0] == "var" and g == par) or g == w for g, w in zip(got, pat))
            rep.check(v, "accessor", "History.get_parameter_std", "column %s is read, %s is written" %
                      (T.show(cats[0][2])[:80], pat), p.loc, p)
    for name, kind, groups in (("get_gradients", "gradient", 1), ("get_gradient_covariances", "covariance", 2),
                               ("get_gradient_variances", "covariance", 1)):
        if kind not in templates:
            continue
        c0 = "History." + name
        f = ctx.prog.method(h.cls, name)
        if f is None:
            raise AnalysisBroken("%s not found" % c0)
        par = ("param", f.params()[0][1])
        i, ps = ctx.run(h.cls, name)
        if i is None:
            continue
        for p in ps:
            if p.kind == "ret":
                regex(rep, p, c0, par, templates[kind][0], name == "get_gradient_variances", h)
    rep.need("accessor", 4)


def regex(rep, p, c0, par, pat, diagonal, h):
    pats, mode = [], None
    for x in T.subterms(p.ret):
        if x[0] == "fn" and x[1] == ".filter":
            kw = dict(x[3])
            if "regex" in kw:
                pats.append(kw["regex"])
                mode = "search"
            elif "like" in kw:
                rep.bad("accessor", c0, "columns are selected by a part of their name", p.loc, p)
                return
        elif x[0] in ("fn", "mcall"):
            n = str(x[1] if x[0] == "fn" else x[2]).split(".")[-1]
            if n in ("fullmatch", "match") and mode is None:
                mode = n
                pats.append(x[2][0] if x[0] == "fn" else x[1])
    if len(set(pats)) != 1:
        rep.unk("accessor", c0, "selection of the columns not understood", p.loc)
        return
    t = pats[0]
    while t[0] == "fn" and t[1] == "re.compile":
        if len(t[2]) > 1 or dict(t[3]):
            rep.unk("accessor", c0, "flags of the expression not understood", p.loc)
            return
        t = t[2][0]
    parts = t[1:] if t[0] == "cat" else (t,)
    text, escaped = "", 0
    for x in parts:
        if x[0] == "const" and isinstance(x[1], str):
            text += x[1]
        elif x == fn("re.escape", par):
            text += "\ue000"
            escaped += 1
        elif x == par:
            rep.bad("literal", c0, "the parameter name is read as a regular expression", p.loc, p)
            text += "\ue000"
        else:
            rep.unk("accessor", c0, "expression %s not understood" % T.show(t)[:150], p.loc)
            return
    try:
        tree = list(sre.parse(text))
    except re.error:
        rep.bad("accessor", c0, "%r is no regular expression" % text, p.loc, p)
        return
    begin = mode in ("match", "fullmatch")
    end = mode == "fullmatch"
    if tree and str(tree[0][0]) == "AT" and str(tree[0][1]) in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
        begin, tree = True, tree[1:]
    if tree and str(tree[-1][0]) == "AT" and str(tree[-1][1]) in ("AT_END", "AT_END_STRING"):
        end, tree = True, tree[:-1]
    rep.check(begin, "whole-name", c0, "the beginning of the column name is not compared: %r also matches columns of "
              "parameters ending in this name" % text, p.loc, p)
    rep.check(end, "whole-name", c0, "the end of the column name is not compared: %r" % text, p.loc, p)
    toks = tokens(tree, {})
    if toks is None:
        rep.unk("accessor", c0, "expression %r not understood" % text, p.loc)
        return
    # the template as tokens
    want = []
    for k, s in enumerate(pat):
        if k:
            want.append("#")
        if s[0] == "const":
            want.extend(s[1])
        else:
            want.append(("var", s[1]))
    depth = [s[1] for s in pat if s[0] == "var"]
    first = min(depth)
    exp, got, n = [], list(toks), 0
    for w in want:
        if isinstance(w, tuple) and w[1] == first:
            exp.append("\ue000")
        elif isinstance(w, tuple):
            n += 1
            exp.append(("name", n) if not diagonal or n == 1 else ("ref", 1))
        else:
            exp.append(w)
    if len(got) != len(exp):
        rep.check(None if any(isinstance(x, tuple) and x[0] == "?" for x in got) else False, "accessor", c0,
                  "columns %s are written, %r is looked up" % (shown(exp), text), p.loc, p)
        return
    res = True
    for g, w in zip(got, exp):
        if g == w:
            continue
        if isinstance(g, tuple) and g[0] == "?":
            res = None if res else res
        elif isinstance(g, tuple) and g[0] == "narrow" and isinstance(w, tuple) and w[0] == "name":
            rep.bad("accessor", c0, "gates whose name contains other characters are not found: %r" % text, p.loc, p)
            return
        else:
            res = False
    rep.check(res, "accessor", c0, "columns %s are written, %r is looked up" % (shown(exp), text), p.loc, p)


def shown(toks):
    return "".join("<parameter>" if x == "\ue000" else "<gate %s>" % x[1] if isinstance(x, tuple) else x for x in toks)


def tokens(tree, groups):
    """regular expression as a list of characters, ("name", group number), ("ref", k), ("narrow",), ("?",)"""
    out = []
    for op, av in tree:
        op = str(op)
        if op == "LITERAL":
            out.append(chr(av))
        elif op == "SUBPATTERN":
            num, inner = av[0], list(av[-1])
            if num is not None:
                groups[num] = len(groups) + 1
            r = tokens(inner, groups)
            if r is None:
                return None
            if len(r) == 1 and isinstance(r[0], tuple) and r[0][0] == "name":
                r = [("name", groups.get(num, 0) if num is not None else 0)]
            out.extend(r)
        elif op in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, inner = av[0], av[1], list(av[2])
            if len(inner) == 1 and int(hi) >= 4294967295 or len(inner) == 1 and str(hi) == "MAXREPEAT":
                iop, iav = str(inner[0][0]), inner[0][1]
                if iop == "NOT_LITERAL" and chr(iav) == "#" or iop == "ANY":
                    out.append(("name", 0))
                    continue
                if iop == "IN":
                    s = [(str(a), b) for a, b in iav]
                    if s == [("NEGATE", None), ("LITERAL", ord("#"))]:
                        out.append(("name", 0))
                    elif s and s[0][0] != "NEGATE":
                        out.append(("narrow",))
                    else:
                        out.append(("?",))
                    continue
            out.append(("?",))
        elif op == "GROUPREF":
            out.append(("ref", groups.get(av, 0)))
        else:
            out.append(("?",))
    return out


# ------------------------------------------------------------------------------------------------ C35

def func_of(ctx, name):
    fs = [x for x in ctx.prog.all_funcs() if x.cls is None and x.qual == name]
    if not fs:
        raise AnalysisBroken("%s not found" % name)
    return fs[0]


def c35(ctx):
    recorded_parameters(ctx)
    recorded_gradients(ctx)
    recorded_voltages(ctx)
    recorded_raw_data(ctx)
    blanked(ctx)


def recorded_raw_data(ctx):
    """every evaluator read that has raw data contributes its export as the record under its own name"""
    rep, f = ctx.rep, func_of(ctx, READ[1])
    c0 = READ[1]
    i, ps = ctx.run_func(f)

    def group(t):
        """the tuner and the attributes of it a collection of evaluators is taken from; None: not understood"""
        if t[0] == "attr":
            return (t[1], {t[2]}) if t[1][0] == "elem" else None
        parts = None
        if t[0] in ("cat", "listcat") or t[0] == "fn" and t[1] in ("concat2", "itertools.chain", "chain"):
            parts = t[2] if t[0] == "fn" else [y for x in t[1:] for y in (x if x and isinstance(x[0], tuple) else (x,))]
        elif t[0] == "poly" and all(len(m) == 1 and m[0][1] == 1 for m, _ in t[1]):
            parts = [m[0][0] for m, _ in t[1]]
        elif t[0] == "fn" and t[1] in ("tuple", "list", "iter") and len(t[2]) == 1:
            parts = t[2]
        elif t[0] in ("tuple", "list") and all(x[0] == "star" for x in t[1]):
            parts = [x[1] for x in t[1]]
        if not parts:
            return None
        got = [group(x) for x in parts]
        if None in got or len({g for g, _ in got}) != 1:
            return None
        return got[0][0], set().union(*(a for _, a in got))

    def others(x):
        """a fact that some, but not every group makes true"""
        t, v = x.term, x.val
        while t[0] == "not":
            t, v = t[1], not v
        return t[0] == "fn" and t[1] == ("any" if v else "all") and len(t[2]) == 1 and t[2][0][0] == "comp"

    for p in ps or ():
        if p.kind != "ret":
            continue
        entries, t = [], p.ret
        while t[0] in ("setitem", "setloc"):
            entries.append((t[-2], t[-1]))
            t = t[1]
        if t[0] not in ("fn", "new", "dict") or any(x[0] in ("phi", "either", "comp", "merge", "unk") for x in T.subterms(p.ret)):
            rep.unk("raw-data", c0, "the records read are %s" % T.show(p.ret)[:100], p.loc)
            continue
        for x in p.facts:
            t = x.term
            if t[0] != "isnone" or t[1][0] != "attr" or t[1][2] != "raw_data" or t[1][1][0] != "elem":
                continue
            e = t[1][1]
            mine = [(k, v) for k, v in entries if T.contains(v, e) or T.contains(k, e)]
            if x.val:
                rep.check(not mine or None, "raw-data", c0, "an evaluator without raw data is recorded", p.loc, p)
                continue
            if not mine:
                rep.bad("raw-data", c0, "raw data of %s is not recorded" % T.show(e)[:80], p.loc, p)
            for k, v in mine:
                rep.check(True if k == attr(e, "name") else (None if vague(k) else False), "raw-data", c0,
                          "the record of %s is filed under %s" % (T.show(e)[:60], T.show(k)[:80]), p.loc, p)
                v = v[1][0] if v[0] in ("list", "tuple") and len(v[1]) == 1 else v
                rep.check(True if v[:3] == ("mcall", e, "to_hdf5") else is_value(p, v, ("mcall", e, "to_hdf5")), "raw-data", c0,
                          "recorded is %s" % T.show(v)[:80], p.loc, p)
        whose = {y[1] for x in p.facts for y in T.subterms(x.term) if y[0] == "attr" and y[2] == "raw_data" and y[1][0] == "elem"}
        for e in whose:
            got = group(e[1])
            if got is None:
                rep.unk("evaluators-read", c0, "evaluators of %s" % T.show(e[1])[:80], p.loc)
                continue
            g, names = got
            dot, cheap = p.truth(("isinstance", g, "SensingDotTuner")), p.truth(attr(g, "cheap_evaluation_only"))
            full = "evaluators" in names or {"cheap_evaluators", "expensive_evaluators"} <= names
            known = not (names - {"evaluators", "cheap_evaluators", "expensive_evaluators"})
            if not known:
                v = None
            elif dot is False:
                v = "evaluators" in names
            elif dot and cheap:
                v = names == {"cheap_evaluators"}
            elif dot and cheap is False:
                v = full
            elif dot and names == {"cheap_evaluators"} and not any(
                    "cheap" in repr(x.term) and not others(x) for x in p.facts if not T.contains(x.term, e)):
                v = False       # nothing on the path says that this group was evaluated only cheaply
            else:
                v = None
            rep.check(v, "evaluators-read", c0, "of a %s the %s are read" %
                      ("group" if not dot else "sensing dot group evaluated %s" % ("cheaply" if cheap else "expensively"),
                       ", ".join(sorted(names))), p.loc, p)
    rep.need("raw-data", 4)
    rep.need("evaluators-read", 3)


def blanked(ctx):
    """no record with raw data is blanked when it is appended"""
    rep, h = ctx.rep, Hist(ctx)
    i, ps = h.appends()
    for p in ps:
        for e in p.events:
            if e.kind != "mutate" or e.name not in ("setitem", "setloc") or not e.args or e.args[-1] != T.NAN or \
                    not (e.recv and is_read(e.recv, READ[1])):
                continue
            seen = [x for x in p.facts[:e.nfacts] if x.term[0] == "isnone" and x.term[1][0] == "item" and
                    x.term[1][2] == ("const", "raw_y_data")]
            v = seen[-1].val if seen else (None if any("raw_" in repr(x.term) for x in p.facts) or
                                           any(vague(x.term) for x in p.facts) else False)
            rep.check(v, "blanked", "History.append_autotuner", "a record%s is blanked" %
                      (" with raw data" if seen else ""), e.loc, p)


def recorded_voltages(ctx):
    rep, f = ctx.rep, func_of(ctx, EXTRACT[0])
    hier = ("param", f.params()[0][0])
    i, ps = ctx.run_func(f)
    for p in ps or ():
        if p.kind != "ret":
            continue
        r = bare(p.ret)
        want = attr(T.item(hier, ZERO), "last_voltages")
        v = True if r == want else (False if r[0] == "attr" and r[1][0] == "item" and r[1][1] == hier and
                                    (T.is_num(r[1][2]) or r[2] != "last_voltages") else is_value(p, r, want))
        rep.check(v, "voltages", EXTRACT[0], "the voltages recorded are %s" % T.show(p.ret)[:100], p.loc, p)
    rep.need("voltages")


def addends(t):
    """the things concatenated to an accumulator"""
    if t[0] == "fn" and t[1] in ("concat2", "concat", "pandas.concat"):
        if t[1] == "concat2":
            return addends(t[2][0]) + addends(t[2][1])
        x = t[2][0]
        if x[0] in ("list", "tuple"):
            return [y for z in x[1] for y in addends(z)]
        return [x]
    if t[0] == "either":
        return [y for x in t[1:] if isinstance(x, tuple) for y in addends(x)]
    if t[0] == "phi" or t[0] == "fn" and t[1].split(".")[-1] == "Series" and not t[2]:
        return []
    return [t]


def has_target(t, desired):
    """the selection keeps the labels with a target: True / False (the others) / None"""
    nots = 0
    while t[0] in ("not", "fn"):
        if t[0] == "not":
            nots, t = nots + 1, t[1]
        elif t[1] in ("~", "invert", "numpy.invert", "logical_not", "numpy.logical_not"):
            nots, t = nots + 1, t[2][0]
        else:
            break
    if t[0] == "fn" and t[2] and bare(t[2][0]) == desired:
        n = t[1].split(".")[-1]
        if n == "apply" and len(t[2]) > 1:
            n = str(t[2][1][-1]).split(".")[-1]
        if n in ("isnan", "isna", "isnull"):
            return nots % 2 == 1
        if n in ("notna", "notnull", "isfinite"):
            return nots % 2 == 0
    return None


def recorded_parameters(ctx):
    rep, f = ctx.rep, func_of(ctx, EXTRACT[1])
    c0 = EXTRACT[1]
    hier = ("param", f.params()[0][0])
    i, ps = ctx.run_func(f)
    for p in ps or ():
        if p.kind != "ret":
            continue
        if p.ret[0] != "tuple" or len(p.ret[1]) != 2:
            rep.unk("parameters", c0, "returns %s" % T.show(p.ret)[:100], p.loc)
            continue
        g = ("elem", hier)
        subset = p.truth(("isinstance", g, "SubsetTuner"))
        sels = []
        for k, what in ((0, "values"), (1, "variances")):
            parts = addends(p.ret[1][k])
            if not parts:
                rep.check(None if vague(p.ret[1][k]) and p.ret[1][k][0] != "phi" else False, "parameters", c0,
                          "no %s are recorded" % what, p.loc, p)
                continue
            for t in parts:
                t, sel = bare(t), None
                if t[0] == "comp" and t[1] == "dict":
                    rep.unk("parameters", c0, "%s not understood" % what, p.loc)
                    continue
                while t[0] == "fn" and t[1] in (".reindex", ".dropna", ".loc") or t[0] == "item" and not T.is_num(t[2]):
                    if t[0] == "fn":
                        sel = t[2][1] if len(t[2]) > 1 else ("unk", "x")
                        t = t[2][0]
                    else:
                        t, sel = t[1], t[2]
                want = T.item(attr(g, "last_parameters_and_variances"), const(k))
                if t == T.item(attr(g, "last_parameters_and_variances"), const(1 - k)):
                    v = False
                elif t == want:
                    v = True
                elif t[0] == "item" and t[1][0] == "attr" and t[1][2] == "last_parameters_and_variances":
                    v = False
                else:
                    v = None
                rep.check(v, "parameters", c0, "the %s recorded are %s" % (what, T.show(t)[:100]), p.loc, p)
                sels.append(sel)
                if subset is True:
                    if sel is None:
                        rep.bad("subset", c0, "a subset tuner records parameters without a target, too", p.loc, p)
                        continue
                    labels = sel[1] if sel[0] in ("select", "item") else None
                    cond = sel[2] if sel[0] in ("select", "item") else sel
                    ds = [x for x in T.subterms(cond) if x[0] == "item" and x[2] == const("desired")]
                    v = has_target(cond, ds[0]) if len(set(ds)) == 1 else None
                    if v and ds[0][1][:1] == ("attr",) and T.contains(ds[0], g) is False:
                        v = False
                    if v is not None and labels is not None and labels != attr(ds[0], "index"):
                        v = None
                    rep.check(v, "subset", c0, "a subset tuner records the parameters %s" % T.show(sel)[:120], p.loc, p)
                elif subset is None and sel is None and v and not any(T.contains(x.term, g) or vague(x.term) for x in p.facts):
                    rep.bad("subset", c0, "a subset tuner records parameters without a target, too", p.loc, p)
                elif subset is False:
                    rep.check(True if sel is None else None, "subset", c0, "parameters of other tuners are filtered", p.loc)
        if len(sels) == 2:
            rep.check(sels[0] == sels[1], "pairing", c0, "values and variances are recorded for different parameters", p.loc, p)
    rep.need("parameters", 4)
    rep.need("subset", 2)


def recorded_gradients(ctx):
    rep, f = ctx.rep, func_of(ctx, EXTRACT[2])
    c0 = EXTRACT[2]
    hier = ("param", f.params()[0][0])
    g = ("elem", hier)
    solver = attr(g, "solver")
    ests, idx = attr(solver, "gradient_estimators"), attr(attr(solver, "target"), "index")
    e0 = ("elem", ests)
    i, ps = ctx.run_func(f)
    for p in ps or ():
        if p.kind != "ret":
            continue
        newton = p.truth(("isinstance", solver, "NewtonSolver"))
        if newton is None and ps and len(ps) == 1:
            pass
        sets = [e for e in p.events if e.kind == "mutate" and e.name == "setitem"]
        done = set()
        for e in sets:
            key, val = e.args[:2]
            calls = [x for x in T.subterms(val) if x[0] == "mcall" and x[2] in ("estimate", "covariance")]
            k = True if key == ("elem", idx) else (None if vague(key) or key[0] not in ("elem", "item") else False)
            rep.check(k, "gradient-name", c0, "the gradient of estimator %s is filed under %s" %
                      (T.show(e0)[:60], T.show(key)[:80]), e.loc, p)
            for x in calls:
                v = True if x[1] == e0 else (None if vague(x[1]) else False)
                rep.check(v, "gradient-name", c0, "%s is filed under the name %s" % (T.show(x)[:80], T.show(key)[:80]), e.loc, p)
                done.add(x[2])
        if newton:
            for m in ("estimate", "covariance"):
                known = [x for x in p.facts if x.term[0] == "isnone" and x.term[1][0] == "mcall" and x.term[1][2] == m]
                if known and not known[-1].val:
                    if m not in done:
                        rep.check(False if sets else None, "gradient-lost", c0, "a known %s is not recorded" % m, p.loc, p)
                    else:
                        rep.ok("gradient-lost", c0)
        if newton is False and not sets:
            continue
        if p.ret[0] == "tuple" and len(p.ret[1]) == 2:
            for k, (right, wrong) in enumerate((("estimate", "covariance"), ("covariance", "estimate"))):
                vals = [x[2][1][1] for x in T.subterms(p.ret[1][k]) if x[0] == "comp" and x[1] == "dict" and x[2][0] == "tuple"]
                got = {y[2] for x in vals for y in T.subterms(x) if y[0] == "mcall" and y[2] in (right, wrong) and x == y}
                if wrong in got:
                    rep.bad("gradient-kind", c0, "component %d of the result holds the estimators' %s" % (k, wrong), p.loc, p)
                elif right in got:
                    rep.ok("gradient-kind", c0)
    rep.need("gradient-name", 4)
    rep.need("gradient-kind", 2)
    rep.need("gradient-lost", 2)


# ------------------------------------------------------------------------------------------------ C36

KNOWN_AXES = {"list": ("List", "list", "Sequence", "Iterable"), "ndarray": ("ndarray", "Iterable"), "Axes": ("Axes", "SubplotBase")}


def feasible(p, holds, about=None):
    """False: a fact of the path is refuted by holds(term) -> True/False/None; None: a fact (about the term) is not decided"""
    doubt = False
    for f in p.facts:
        v = ev(f.term, holds)
        if v is None:
            doubt = doubt or about is None or T.contains(f.term, about) or vague(f.term)
        elif v != f.val:
            return False
    return None if doubt else True


def ev(t, holds):
    if t[0] == "not":
        v = ev(t[1], holds)
        return None if v is None else not v
    if t[0] in ("and", "or"):
        vs = [ev(x, holds) for x in t[1]]
        short = t[0] == "or"
        if short in vs:
            return short
        return None if None in vs else not short
    return holds(t)


def drawing_table(ctx):
    import ast
    m = next((m for m in ctx.prog.modules.values() if m.rel.endswith("history.py")), None)
    for s in m.tree.body if m is not None else ():
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "plot_function_matching" for t in s.targets) \
                and isinstance(s.value, ast.Dict):
            return {k.value: v.id for k, v in zip(s.value.keys, s.value.values)
                    if isinstance(k, ast.Constant) and isinstance(v, ast.Name)}
    return None


def default_name(ctx, c):
    import ast
    init = ctx.prog.method(c, "__init__")
    if init is None:
        return None
    a = init.node.args
    names = [x.arg for x in a.args]
    dv = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    dv.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    d = dv.get("name")
    return d.value if isinstance(d, ast.Constant) and isinstance(d.value, str) else None


def fit_labels(ctx, c):
    """names in fit_results after an evaluation; None if not known"""
    i, ps = ctx.run(c, "evaluate", opaque=set(x.name for x in EVAL.helper_functions(ctx.prog)), exc="all", exc_filter=EVAL.is_fit)
    if i is None:
        return None
    out = set()
    a = (i.export() or {}).get("fit_results")
    if a is None or a[0] != "attr":
        return None
    for p in ps:
        if p.kind == "ret":
            t = p.final(a[2])
            lab = EVAL.labels(t) if t is not None else None
            if lab is None:
                return None
            out.add(frozenset(x[1] if x[0] == "const" else None for x in lab))
    return out.pop() if len(out) == 1 else None


PLOTS = ("plot_raw_data_fit", "plot_raw_data_vertical_marks", "plot_raw_data_2_dim_marks")


def c36(ctx):
    rep = ctx.rep
    table = drawing_table(ctx)
    if not table:
        rep.unk("table", "plot_function_matching", "not a constant table")
        return
    classes = [c for c in EVAL.evaluators(ctx.prog)]
    exports, names, labs = {}, {}, {}
    for c in classes:
        i, ps = ctx.run(c, "to_hdf5")
        exports[c.name] = set(i.export() or ()) if i is not None else set()
        names[c.name] = default_name(ctx, c)
    for key, fname in sorted(table.items()):
        f = func_of(ctx, fname)
        con = "%s for %r" % (fname, key)
        who = [c for c in classes if names[c.name] and (key == names[c.name] or
                                                         key.startswith(names[c.name]) and key not in names.values())]
        if key.startswith("Averaging"):
            who = [c for c in classes if c.name == "AveragingEvaluator"]
        if not who:
            rep.unk("class", con, "no evaluator is named so")
            continue
        i, ps = ctx.run_func(f, opaque=PLOTS)
        if i is None:
            continue
        pos = f.params()[0]
        ax, data = ("param", pos[0]), ("param", "evaluator_hdf5")
        for c in who:
            have = exports[c.name]
            if c.name not in labs:
                labs[c.name] = fit_labels(ctx, c) if "fit_results" in have else None
            for p in ps:
                draw_path(ctx, rep, con, c, have, labs[c.name], p, ax, data)
        for p in ps:
            axes_kinds(rep, con, p, ax)
    for f in (func_of(ctx, "plot_gradients"), func_of(ctx, "plot_parameters")):
        ax = ("param", "axes")
        i, ps = ctx.run_func(f)
        for p in ps or ():
            axes_kinds(rep, f.qual, p, ax, none=True)
    curves(ctx)
    titles(ctx)
    record_keys(ctx, exports)
    error_bars(ctx)
    rep.need("keys", 8)
    rep.need("axes", 10)
    rep.need("fit-function", 3)


def terms_of(p):
    for e in p.events:
        for x in list(e.args) + list(e.kw.values()) + ([e.recv] if e.recv else []) + ([e.res] if e.res else []):
            if isinstance(x, tuple):
                yield x, e.loc
    for f in p.facts:
        yield f.term, f.loc
    if p.ret:
        yield p.ret, p.loc


def draw_path(ctx, rep, con, c, have, labs, p, ax, data):
    def holds(t):
        if t[0] == "in" and t[1][0] == "const":
            if t[2] == data:
                return t[1][1] in have
            if t[2] == T.item(data, const("fit_results")) and labs is not None and None not in labs:
                return t[1][1] in labs
        if t == T.is_none(T.item(data, const("fit_results"))):
            return False
        return None
    ok = feasible(p, holds, data)
    if ok is False:
        return
    for t, loc in terms_of(p):
        for x in T.subterms(t):
            if x[0] == "item" and x[1] == data and x[2][0] == "const":
                rep.check(x[2][1] in have, "keys", con, "%s is read from the data of %s, which stores %s" %
                          (T.show(x[2]), c.name, sorted(have)), loc, p)
    for e in p.events:
        if e.kind == "call" and e.name == PLOTS[0]:
            fu, args, ini = e.arg(2, "fit_function"), e.arg(3, "function_args"), e.arg(4, "initial_arguments")
            if fu is None or fu == NONE:
                rep.bad("fit-function", con, "no fit is drawn", e.loc, p)
                continue
            if args is not None:
                rep.check(True if bare(args) == T.item(data, const("fit_results")) else (None if vague(args) else False),
                          "fit-function", con, "the fit is drawn with the arguments %s" % T.show(args)[:80], e.loc, p)
            if ini is not None:
                rep.check(True if bare(ini) == T.item(data, const("initial_fit_arguments")) else (None if vague(ini) else False),
                          "fit-function", con, "the initial guess is drawn with the arguments %s" % T.show(ini)[:80], e.loc, p)
            if fu[0] != "gfunc" or labs is None or None in labs:
                rep.unk("fit-function", con, "fitted function of %s not understood" % c.name, e.loc)
                continue
            g = next((g for g in EVAL.functions(ctx.prog) if g.name == fu[1].split(".")[-1]), None)
            if g is None:
                rep.unk("fit-function", con, "%s not found" % fu[1], e.loc)
                continue
            want = [q.arg for q in g.node.args.args][1:]
            v = frozenset(want) == labs
            rep.check(True if v else (False if ok else None), "fit-function", con,
                      "the fit of %s with the parameters %s is drawn with %s(%s)" % (c.name, sorted(labs), g.name, want), e.loc, p)
        if e.kind == "call" and e.name in PLOTS:
            y, x = e.arg(0, "y_data"), e.arg(1, "x_data")
            for t, want in ((y, "raw_y_data"), (x, "raw_x_data")):
                if t is None:
                    continue
                b = bare(t)
                while b[0] in ("elem", "item") and b[1] != data:
                    b = b[1]
                rep.check(True if b == T.item(data, const(want)) else (None if vague(t) or b[0] not in ("item",) else False),
                          "data", con, "%s is drawn as %s" % (T.show(t)[:80], want), e.loc, p)
        if e.kind == "call" and e.name in PLOTS[1:]:
            m = e.arg(2, "marking_position") if e.name == PLOTS[1] else e.arg(2, "marking_position")
            if m is None:
                continue
            panel = [x for x in T.subterms(e.arg(0, "y_data") or NONE) if x[0] == "elem"]
            if panel:
                # one panel per measurement: mark and title belong to the same entry
                marks = m[1] if m[0] in ("elem", "val") else None
                inside = any(x[0] in ("elem", "key", "val") for x in T.subterms(m))
                if marks is not None and marks[0] == "fn" or marks is None and inside:
                    rep.unk("marks", con, "mark %s not understood" % T.show(m)[:100], e.loc)
                    continue
                rep.check(True if marks is not None else (None if vague(m) else False), "marks", con,
                          "the mark %s is drawn in every panel" % T.show(m)[:80], e.loc, p)
                for s in p.calls("set_title"):
                    t = s.arg(0)
                    if marks is None or t is None or t[0] == "const":
                        continue
                    v = True if t in (("elem", attr(marks, "index")), ("key", marks)) else \
                        (False if t[0] in ("elem", "item") and not T.contains(t, marks) and not vague(t) else None)
                    rep.check(v, "marks", con, "the panel with the mark %s is titled %s" % (T.show(m)[:80], T.show(t)[:80]), s.loc, p)


def axes_kinds(rep, con, p, ax, none=False):
    """single axes, lists and arrays of axes are all drawn on"""
    for kind in ("Axes", "list", "ndarray"):
        def holds(t):
            if t[0] == "isinstance" and t[1] == ax:
                names = t[2] if isinstance(t[2], tuple) else (t[2],)
                return any(str(n).split(".")[-1] in KNOWN_AXES[kind] for n in names)
            if t[0] == "isinstance" and t[1] in (T.item(ax, ZERO), ("elem", ax)):
                return str(t[2]).split(".")[-1] in KNOWN_AXES["Axes"] if kind != "Axes" else None
            if t == T.is_none(ax):
                return False
            if t[0] == "fn" and t[1] == "hasattr" and t[2][0] == ax and t[2][1][0] == "const":
                n = t[2][1][1]
                return (n in ("__len__", "__getitem__", "__iter__")) == (kind != "Axes") if n.startswith("__") else \
                    (n in ("plot", "set_title") and kind == "Axes" or n in ("ravel", "flat", "shape") and kind == "ndarray")
            return None
        ok = feasible(p, holds)
        if ok is False:
            continue
        bad = None
        for t, loc in terms_of(p):
            for x in T.subterms(t):
                if kind == "Axes" and (x[0] == "elem" and x[1] == ax or x[0] == "item" and x[1] == ax or
                                       x[0] == "fn" and x[1] in ("len", "list", "tuple", "iter") and x[2] and x[2][0] == ax):
                    bad = bad or (loc, "a single Axes is taken apart: %s" % T.show(x)[:60])
        for e in p.events:
            if e.kind == "call" and e.recv == ax and kind != "Axes" and e.name in (
                    "plot", "set_title", "legend", "vlines", "hlines", "pcolormesh", "set_xlabel", "set_ylabel", "imshow"):
                bad = bad or (e.loc, "a %s of axes is drawn on like an Axes: .%s" % (kind, e.name))
            if e.kind == "call" and kind != "Axes" and e.name in PLOTS and e.arg(None, "ax") == ax:
                bad = bad or (e.loc, "a %s of axes is passed on as an Axes" % kind)
        if bad is None:
            rep.ok("axes", "%s on %s" % (con, kind))
        else:
            rep.check(False if ok or none else None, "axes", "%s on %s" % (con, kind), bad[1], bad[0], p)


def titles(ctx):
    """names and units of parameters: every parameter of an evaluator has an entry, or the lookup is guarded"""
    import ast
    rep = ctx.rep
    m = next((m for m in ctx.prog.modules.values() if m.rel.endswith("history.py")), None)
    keys = None
    for s in m.tree.body if m is not None else ():
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "parameter_information" for t in s.targets) \
                and isinstance(s.value, ast.Dict):
            keys = {k.value for k in s.value.keys if isinstance(k, ast.Constant)}
    if keys is None:
        return
    lost = set()
    for c in EVAL.evaluators(ctx.prog):
        init = ctx.prog.method(c, "__init__")
        for x in ast.walk(init.node.args) if init is not None else ():
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value not in keys and \
                    x.value.startswith("parameter_"):
                lost.add(x.value)
    for name in ("plot_parameters", "plot_gradients"):
        i, ps = ctx.run_func(func_of(ctx, name))
        for p in ps or ():
            seen = set()
            for t, loc in terms_of(p):
                for x in T.subterms(t):
                    if x[0] == "item" and x[1][0] == "glob" and x[1][1].endswith("parameter_information") and x[2][0] != "const" \
                            and x not in seen:
                        seen.add(x)
                        has = p.i.decide(p.st, ("in", x[2], x[1]))
                        rep.check(True if has or not lost else False, "titles", name,
                                  "drawing fails for the parameters %s, which have no entry in parameter_information" %
                                  sorted(lost), loc, p)
            if not seen:
                rep.ok("titles", name)


def curves(ctx):
    """plot_raw_data_fit draws data, fit and guess from the arguments of that name"""
    rep, f = ctx.rep, func_of(ctx, PLOTS[0])
    i, ps = ctx.run_func(f)
    y, fu, args, ini = (("param", x) for x in ("y_data", "fit_function", "function_args", "initial_arguments"))
    if i is None or not all(x[1] in f.params()[0] for x in (y, fu, args, ini)):
        return
    for p in ps:
        if p.kind != "ret":
            continue
        for e in p.calls("plot"):
            lab, val = e.kw.get("label"), e.arg(1)
            if val is None or lab is None or lab[0] != "const":
                continue
            ts = list(T.subterms(val))
            want = {"Raw Data": y, "Fit": args, "Initial Guess": ini}.get(lab[1])
            if want is None:
                continue
            x = e.arg(0)
            v = want in ts
            rep.check(v if v or not vague(val) else None, "curves", PLOTS[0], "the curve %r is %s" % (lab[1], T.show(val)[:80]), e.loc, p)
            for t in ts:
                if t[0] == "mcall" and t[1] == fu and t[2] == "()":
                    rep.check(True if t[3][:1] == (x,) else (None if vague(t) else False), "curves", PLOTS[0],
                              "the fit is computed at %s and drawn at %s" % (T.show(t[3][0])[:60] if t[3] else "", T.show(x)[:60]),
                              e.loc, p)
    rep.need("curves", 3)


def record_keys(ctx, exports):
    """keys that plot_evaluator_data and number_of_measurements ask of every record are stored by every evaluator"""
    rep, h = ctx.rep, Hist(ctx)
    all_keys = set().union(*exports.values())
    i, ps = ctx.run(h.cls, "plot_evaluator_data")
    for p in ps or ():
        for t, loc in terms_of(p):
            for x in T.subterms(t):
                if x[0] == "item" and x[2][0] == "const" and isinstance(x[2][1], str) and T.contains(x[1], attr(SELF, h.raw)) \
                        and x[1][0] in ("item", "iloc", "loc"):
                    k = x[2][1]
                    lost = sorted(n for n in exports if exports[n] and k not in exports[n])
                    inside = any(y[0] == "in" and y[1] == x[2] for y in T.subterms(t))
                    odd = any("startswith" in repr(f.term) or "isinstance" in repr(f.term) for f in p.facts)
                    for n in lost:
                        def holds(y, n=n):
                            if y[0] == "in" and y[1][0] == "const" and y[1][1] in all_keys and y[2] == x[1]:
                                return y[1][1] in exports[n]
                            return None
                        ok = feasible(p, holds)
                        v = True if ok is False or inside else (None if odd else False)
                        rep.check(v, "record-keys", "History.plot_evaluator_data",
                                  "%r is read from the record of every evaluator, but %s does not store it" % (k, n), loc, p)
                    if not lost:
                        rep.ok("record-keys", "History.plot_evaluator_data")


def roots(t):
    """number of square roots around the data: {counts}"""
    n = 0
    for x in T.subterms(t):
        if x[0] == "fn" and x[1].split(".")[-1] in ("sqrt",) and x[2]:
            n += 1
        elif x[0] == "fn" and x[1] in (".apply", ".applymap", ".map", ".transform", ".pipe") and any(
                a[0] in ("glob", "gfunc") and str(a[1]).split(".")[-1] == "sqrt" for a in x[2][1:]):
            n += 1
        elif x[0] == "poly":
            for mono, _ in x[1]:
                n += sum(1 for b, k in mono if str(k) in ("1/2", "0.5"))
        elif x[0] == "fn" and x[1] in ("pow", "**", "power") and len(x[2]) > 1 and T.is_num(x[2][1]) and float(x[2][1][1]) == .5:
            n += 1
    return n


def error_bars(ctx):
    rep, h = ctx.rep, Hist(ctx)
    i, ps = ctx.run(h.cls, "get_parameter_std")
    std = set()
    for p in ps or ():
        if p.kind == "ret":
            std.add(roots(p.ret))
    i, ps = ctx.run(h.cls, "get_gradient_variances")
    var = {roots(p.ret) for p in ps or () if p.kind == "ret"}
    drawn = {}
    for name, par in (("plot_parameters", "parameter_std"), ("plot_gradients", "gradient_std")):
        f = func_of(ctx, name)
        i, ps = ctx.run_func(f)
        out = set()
        for p in ps or ():
            for e in p.calls("plot"):
                y = e.kw.get("yerr")
                if y is not None and T.contains(y, ("param", par)):
                    out.add(roots(y))
        drawn[name] = out
    for name, data, con in (("plot_parameters", std, "get_parameter_std"), ("plot_gradients", var, "get_gradient_variances")):
        if len(data) != 1 or len(drawn[name]) != 1:
            rep.unk("error-bars", name, "error bars not understood: %s, %s" % (data, drawn[name]))
            continue
        n = list(data)[0] + list(drawn[name])[0]
        rep.check(n == 1, "error-bars", name, "the error bars are the %s of the recorded variances" %
                  ("variances instead of the square roots" if n == 0 else "%d-fold square roots" % n), (func_of(ctx, name).module.rel, func_of(ctx, name).node.lineno, name))
    # who is given what
    for owner, meth in (("History", "plot_tuning"), ("GradientWidget", "refresh"), ("ParameterWidget", "refresh")):
        c = ctx.prog.classes.get(owner)
        if c is None or ctx.prog.method(c, meth) is None:
            continue
        i, ps = ctx.run(c, meth, opaque=("plot_parameters", "plot_gradients", "plot_voltages", "get_parameter_std",
                                         "get_gradient_variances", "get_gradients", "get_parameter_values", "get_gradient_covariances",
                                         "get_clear_axes", "draw"))
        for p in ps or ():
            for e in p.events:
                if e.kind != "call" or e.name not in drawn:
                    continue
                t = e.arg(1, "parameter_std" if e.name == "plot_parameters" else "gradient_std")
                if t is None or t == NONE:
                    continue
                want = "get_parameter_std" if e.name == "plot_parameters" else "get_gradient_variances"
                got = {x[2] if x[0] == "mcall" else x[1] for x in T.subterms(t) if x[0] in ("mcall", "call") and
                       str(x[2] if x[0] == "mcall" else x[1]).startswith("get_")}
                v = True if got == {want} and roots(t) == 0 else (False if got and not vague(t) or roots(t) else None)
                rep.check(v, "error-bars", "%s.%s -> %s" % (owner, meth, e.name), "the error bars are computed from %s" %
                          T.show(t)[:120], e.loc, p)
    # the live plot of the GUI: pyqtgraph draws half the height to each side
    c = ctx.prog.classes.get("PlotOrganizer")
    if c is not None:
        for m in sorted(c.methods):
            i, ps = ctx.run(c, m, opaque=("get_parameter_std", "get_gradient_variances", "get_gradients", "get_parameter_values"))
            seen = set()
            for p in ps or ():
                for e in p.events:
                    if e.kind == "call" and "height" in e.kw and (e.kw["height"], e.kw.get("y")) not in seen:
                        seen.add((e.kw["height"], e.kw.get("y")))
                        gui_bar(rep, p, e.kw["height"], e.kw.get("y"), e.loc, std)
    rep.need("error-bars", 2)


def gui_bar(rep, p, t, y, loc, std):
    def got(t):
        return {(x[2] if x[0] == "mcall" else x[1]): (x[3] if x[0] == "mcall" else x[2]) for x in T.subterms(t)
                if x[0] in ("mcall", "call") and str(x[2] if x[0] == "mcall" else x[1]).startswith("get_")}
    src = got(t)
    if not src:
        rep.unk("error-bars", "PlotOrganizer", "error bars %s not understood" % T.show(t)[:100], loc)
        return
    n = roots(t) + (list(std)[0] if "get_parameter_std" in src and len(std) == 1 else 0)
    k = EVAL.scaled(t)
    rep.check(n == 1, "error-bars", "PlotOrganizer", "error bars with %d square roots: %s" % (n, T.show(t)[:100]), loc, p)
    factor = t[1][0][1] if k else (1 if t[0] in ("mcall", "call", "item", "fn") else None)
    rep.check(None if factor is None else float(factor) == 2, "error-bars", "PlotOrganizer",
              "error bars of the height %s instead of two standard deviations" % T.show(t)[:100], loc, p)
    for a, b in (("get_parameter_std", "get_parameter_values"), ("get_gradient_variances", "get_gradients")):
        ys = got(y) if y is not None else {}
        if a in src and b in ys:
            rep.check(src[a][:1] == ys[b][:1], "error-bars", "PlotOrganizer", "the error bars of another parameter are drawn at %s" %
                      T.show(y)[:80], loc, p)
            gs = [[x[2] for x in T.subterms(z) if x[0] == "item" and any(w[0] == "mcall" and w[2] in (a, b) for w in [x[1]])]
                  for z in (t, y)]
            if a == "get_gradient_variances" and gs[0] and gs[1]:
                rep.check(gs[0] == gs[1], "error-bars", "PlotOrganizer", "the error bars of another gate are drawn at %s" %
                          T.show(y)[:80], loc, p)


RULES = {
    "C18": (c18, "Abstract interpretation of append_autotuner: per path, the number of rows, reload paths and raw-data entries "
                 "added (as nested append/concat terms) against the outcome of the voltage comparison; index of replaced entries."),
    "C19": (c19, "Provenance of the range arguments of every read on every path of append_autotuner, slices of the hierarchy in the "
                 "read functions, source and order of the enumerated files, field order of the time format."),
    "C20": (c20, "Column-name templates of the writer and the constant regular expressions of the accessors compared as token "
                 "sequences over '#'-separated segments; pairwise unification of the templates."),
    "C35": (c35, "Abstract interpretation of the three extract functions: provenance of every recorded value, variance, gradient and "
                 "covariance (group, component, label) as terms, per path and kind of tuner."),
    "C36": (c36, "Abstract interpretation of the drawing functions, once per evaluator class whose records they draw (facts about the "
                 "record decided from the class's exported keys and fit labels) and per kind of axes their callers pass; argument names "
                 "of the drawn fit function against the labels of the stored fit; square roots counted between variance and error bar."),
}

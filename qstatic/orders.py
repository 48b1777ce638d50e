"""Abstract domain of order types: decides elementwise comparison conditions extracted from the source by going through
the finitely many ways a value can lie relative to its limits (below, at, above, limit missing).  A term is interpreted
over one representative per order type; terms that use anything but these quantities are reported as undecided."""
import math
from fractions import Fraction
from . import terms as T

NaN = float("nan")


class Undecided(Exception):
    pass


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


class Model:
    """vecs: term -> list of numbers (one per label); scal: term -> number or bool"""

    def __init__(self, vecs, scal=(), n=1):
        self.vecs, self.scal, self.n = dict(vecs), dict(scal), n

    def lift(self, f, *xs):
        if any(isinstance(x, list) for x in xs):
            xs = [x if isinstance(x, list) else [x] * self.n for x in xs]
            return [f(*ys) for ys in zip(*xs)]
        return f(*xs)

    def ev(self, t, i=None):
        if t in self.scal:
            return self.scal[t]
        if t in self.vecs:
            v = self.vecs[t]
            return v if i is None else v
        k = t[0]
        if k == "const":
            v = t[1]
            if isinstance(v, Fraction):
                return float(v)
            if t == T.NAN:
                return NaN
            if t == T.INF:
                return math.inf
            if isinstance(v, bool):
                return v
            raise Undecided(T.show(t))
        if k == "elem" and i is not None:
            v = self.ev(t[1], i)
            return v[i] if isinstance(v, list) else v
        if k == "item":
            if t[2][0] in ("elem", "index", "key") and i is not None:
                v = self.ev(t[1], i)
                return v[i] if isinstance(v, list) else v
            if t[2][0] in ("attr", "fn", "param") and t[2][0] != "const" and not T.is_const(t[2]):
                v = self.ev(t[1], i)
                if isinstance(v, list):
                    return v
            raise Undecided(T.show(t))
        if k == "poly":
            tot = 0.0
            for m, c in t[1]:
                x = float(c)
                for a, e in m:
                    v = self.ev(a, i)
                    p = self.lift(lambda y, e=e: self.pw(y, e), v)
                    x = self.lift(self.mul, x, p)
                tot = self.lift(lambda a_, b_: a_ + b_, tot, x)
            return tot
        if k in ("<0", "<=0", "==0"):
            v = self.ev(t[1], i)
            op = {"<0": lambda y: y < 0, "<=0": lambda y: y <= 0, "==0": lambda y: y == 0}[k]
            return self.lift(op, v)
        if k == "not":
            return self.lift(lambda y: not y, self.ev(t[1], i))
        if k in ("and", "or"):
            r = k == "and"
            for x in t[1]:
                v = self.ev(x, i)
                r = self.lift((lambda a_, b_: a_ and b_) if k == "and" else (lambda a_, b_: a_ or b_), r, v)
            return r
        if k == "ite":
            c = self.ev(t[1], i)
            a, b = self.ev(t[2], i), self.ev(t[3], i)
            return self.lift(lambda x, y, z: y if x else z, c, a, b)
        if k == "isnone":
            raise Undecided(T.show(t))
        if k == "comp":
            if t[1] == "dict" or len(t[3]) != 1:
                raise Undecided(T.show(t))
            out = []
            for j in range(self.n):
                if all(self.ev(c, j) for c in t[4]):
                    out.append(self.ev(t[2], j))
            return out
        if k in ("list", "tuple"):
            return [self.ev(x, i) for x in t[1]]
        if k == "fn":
            name, a = t[1], t[2]
            if name in ("values", "Series", "copy", "deepcopy", "asarray", "array", "list", "ravel", "float", "astype") and a:
                return self.ev(a[0], i)
            if name == "abs":
                return self.lift(abs, self.ev(a[0], i))
            if name == "sqrt":
                return self.lift(lambda y: math.sqrt(y) if y >= 0 else NaN, self.ev(a[0], i))
            if name == "isna":
                return self.lift(lambda y: y != y, self.ev(a[0], i))
            if name == "fillna" and len(a) == 2:
                return self.lift(lambda y, z: z if y != y else y, self.ev(a[0], i), self.ev(a[1], i))
            if name == "any":
                v = self.ev(a[0], i)
                return any(bool(x) for x in v) if isinstance(v, list) else bool(v)
            if name in ("min", "max") and len(a) == 2:
                f = min if name == "min" else max
                return self.lift(lambda y, z: f(y, z), self.ev(a[0], i), self.ev(a[1], i))
            if name in ("min", "max") and len(a) == 1:
                v = [y for y in self.ev(a[0], i) if y == y]
                return (min if name == "min" else max)(v) if v else NaN
            if name in ("count_true", "sum") and len(a) == 1:
                v = self.ev(a[0], i)
                if isinstance(v, list):
                    return float(sum(y for y in v if y == y))
            if name == "len":
                x = a[0]
                if x[0] == "item" and x[2][0] == "slice" and all(y == T.NONE or T.is_num(y) for y in x[2][1:]):
                    n = self.ev(T.fn("len", x[1]), i)
                    return float(len(range(int(n))[slice(*[None if y == T.NONE else int(y[1]) for y in x[2][1:]])]))
                v = self.ev(x, i)
                if isinstance(v, list):
                    return float(len(v))
            if name == "bool":
                return bool(self.ev(a[0], i))
        raise Undecided(T.show(t))

    @staticmethod
    def pw(y, e):
        if y == 0 and e < 0:
            return math.inf
        try:
            return y ** e
        except OverflowError:
            return math.inf

    @staticmethod
    def mul(a, b):
        return a * b

    def holds(self, facts):
        """(consistent, undecided facts) of a path's branch conditions in this model"""
        und = []
        for f in facts:
            try:
                v = self.ev(f.term)
            except Undecided:
                und.append(f)
                continue
            if isinstance(v, list):
                continue
            if bool(v) != f.val:
                return False, []
        return True, und

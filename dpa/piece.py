"""Piecewise evaluation of element-wise terms.

A weight function is a term in one distance x and cut-offs a < b < r.  The real line is
split into the regions these cut-offs define; in each region x and the cut-offs are
polynomials in symbols that stand for arbitrary positive numbers, every comparison in
the term has one outcome and the value is a rational function whose range follows from
the signs of its coefficients."""
from fractions import Fraction
from .poly import Poly, ONE, ZERO
from .values import Term

P = Poly.sym


class Unknown(Exception):
    pass


class Missing(Exception):
    """the value is not a number"""


INF = "inf"


def sign(p):
    """-1, 0, 1 when every positive value of the symbols gives that sign, else None"""
    if not p.t:
        return 0
    vs = list(p.t.values())
    if all(v > 0 for v in vs):
        return 1
    if all(v < 0 for v in vs):
        return -1
    return None


class Rat:
    def __init__(self, n, d=ONE):
        self.n, self.d = n, d

    def sgn(self):
        a, b = sign(self.n), sign(self.d)
        if a == 0:
            return 0
        if a is None or not b:
            return None
        return a * b

    def __repr__(self):
        return "%s" % self.n if self.d == ONE else "(%s)/(%s)" % (self.n, self.d)


def num(v):
    return Rat(Poly.const(Fraction(v)))


def sub(a, b):
    if a is INF or b is INF:
        if a is b:
            raise Missing()
        if b is INF:
            raise Unknown()
        return INF
    return Rat(a.n * b.d - b.n * a.d, a.d * b.d)


def add(a, b):
    if a is INF or b is INF:
        return INF
    return Rat(a.n * b.d + b.n * a.d, a.d * b.d)


def mul(a, b):
    if a is INF or b is INF:
        o = b if a is INF else a
        if o is INF or o.sgn() == 1:
            return INF
        if o.sgn() == 0:
            raise Missing()
        raise Unknown()
    return Rat(a.n * b.n, a.d * b.d)


def div(a, b):
    if b is INF:
        if a is INF:
            raise Missing()
        return num(0)
    if b.sgn() == 0:
        if a is INF:
            return INF
        if a.sgn() == 0:
            raise Missing()
        return INF
    if a is INF:
        if b.sgn() == 1:
            return INF
        raise Unknown()
    return Rat(a.n * b.d, a.d * b.n)


def less(a, b):
    if a is INF:
        return False
    if b is INF:
        return True
    s = sub(b, a).sgn()
    if s is None:
        raise Unknown()
    return s > 0


class Eval:
    def __init__(self, env, facts=None):
        self.env = env
        self.memo = {}

    def v(self, t):
        if not isinstance(t, Term):
            raise Unknown()
        if t.id not in self.memo:
            try:
                self.memo[t.id] = self._v(t)
            except (Missing, Unknown) as e:
                self.memo[t.id] = e
        r = self.memo[t.id]
        if isinstance(r, Exception):
            raise r
        return r

    def sel(self, t):
        """is the element selected by this index?"""
        if isinstance(t, Term) and t.op == "nzidx":
            return self.sel(t.args[0])
        if isinstance(t, Term) and t.op in ("tup", "ilist") and len(t.args) == 1:
            return self.sel(t.args[0])
        if isinstance(t, Term) and t.op == "sl":
            if all(isinstance(a, Term) and a.op == "none" or a is None for a in t.args):
                return True
            raise Unknown()
        r = self.v(t)
        if isinstance(r, bool):
            return r
        raise Unknown()

    def _v(self, t):
        op, a = t.op, t.args
        if op == "in":
            if a[0] in self.env:
                return self.env[a[0]]
            raise Unknown()
        if op == "c":
            x = str(a[0])
            if x in ("True", "False"):
                return x == "True"
            if x in ("const0", "const1"):
                return x == "const1"
            try:
                f = float(x)
            except ValueError:
                raise Unknown()
            if f == float("inf"):
                return INF
            if f != f:
                raise Missing()
            return num(f)
        if op == "full":
            return self.v(a[0])
        if op in ("add", "sub", "mul", "div"):
            x, y = self.v(a[0]), self.v(a[1])
            x, y = [num(int(z)) if isinstance(z, bool) else z for z in (x, y)]
            return {"add": add, "sub": sub, "mul": mul, "div": div}[op](x, y)
        if op in ("negate", "neg"):
            return sub(num(0), self.v(a[0]))
        if op in ("square",):
            x = self.v(a[0])
            return mul(x, x)
        if op == "pow":
            x, e = self.v(a[0]), self.v(a[1])
            c = e.n.cval() if isinstance(e, Rat) and e.d == ONE else None
            if c is None or c.denominator != 1 or abs(c) > 6:
                raise Unknown()
            r = num(1)
            for _ in range(abs(int(c))):
                r = mul(r, x)
            return r if c >= 0 else div(num(1), r)
        if op in ("abs", "fabs"):
            x = self.v(a[0])
            if x is INF:
                return x
            s = x.sgn()
            if s is None:
                raise Unknown()
            return x if s >= 0 else sub(num(0), x)
        if op in ("lt", "gt", "le", "ge", "eq", "ne"):
            x, y = self.v(a[0]), self.v(a[1])
            if op == "lt":
                return less(x, y)
            if op == "gt":
                return less(y, x)
            if op == "le":
                return not less(y, x)
            if op == "ge":
                return not less(x, y)
            e = not less(x, y) and not less(y, x)
            return e if op == "eq" else not e
        if op == "not":
            x = self.v(a[0])
            if isinstance(x, bool):
                return not x
            raise Unknown()
        if op in ("and", "or", "mul_b"):
            vs = []
            for q in a:
                try:
                    vs.append(self.v(q))
                except Unknown:
                    vs.append(None)
            if op == "and":
                if any(x is False for x in vs):
                    return False
                if all(x is True for x in vs):
                    return True
            else:
                if any(x is True for x in vs):
                    return True
                if all(x is False for x in vs):
                    return False
            raise Unknown()
        if op == "isinf":
            return self.v(a[0]) is INF
        if op == "isfinite":
            return self.v(a[0]) is not INF
        if op == "isnan":
            try:
                self.v(a[0])
            except Missing:
                return True
            return False
        if op == "where" and len(a) == 3:
            return self.v(a[1]) if self.sel(a[0]) else self.v(a[2])
        if op in ("maximum", "minimum", "fmax", "fmin"):
            x, y = self.v(a[0]), self.v(a[1])
            l = less(x, y)
            return (y if l else x) if op in ("maximum", "fmax") else (x if l else y)
        if op == "clip" and len(a) == 3:
            x, lo, hi = (self.v(q) for q in a)
            return lo if less(x, lo) else hi if less(hi, x) else x
        if op == "store" and len(a) == 3:
            return self.v(a[2]) if self.sel(a[1]) else self.v(a[0])
        if op == "idx" and len(a) == 2:
            if self.sel(a[1]):
                return self.v(a[0])
            raise Unknown()
        raise Unknown()


def regions():
    """(name, x, a, b, r) covering 0 <= x and 0 < a < b < r <= inf"""
    A, B, C, S, T = P("A"), P("B"), P("C"), P("S"), P("T")
    R = lambda p: Rat(p)
    for inf in (False, True):
        r = lambda p: INF if inf else Rat(p)
        tail = " (r infinite)" if inf else ""
        yield "x = 0" + tail, num(0), R(A), R(A + B), r(A + B + C)
        yield "0 < x < a" + tail, R(S), R(S + A), R(S + A + B), r(S + A + B + C)
        yield "x = a" + tail, R(A), R(A), R(A + B), r(A + B + C)
        yield "a < x < b" + tail, R(A + S), R(A), R(A + S + B), r(A + S + B + C)
        yield "x = b" + tail, R(A + B), R(A), R(A + B), r(A + B + C)
        yield "b < x < r" + tail, R(A + B + S), R(A), R(A + B), r(A + B + S + C)
        if not inf:
            yield "x = r", R(A + B + C), R(A), R(A + B), R(A + B + C)
            yield "x > r", R(A + B + C + S), R(A), R(A + B), R(A + B + C)
    yield "x = 0 (a infinite)", num(0), INF, INF, INF
    yield "x > 0 (a infinite)", R(S), INF, INF, INF

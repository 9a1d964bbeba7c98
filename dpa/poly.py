"""Polynomials with rational coefficients over dimension symbols.

Every symbol denotes a non-negative integer (a "slack"), so a polynomial whose
coefficients are all non-negative is non-negative for every data set.
"""
from fractions import Fraction


class Poly:
    __slots__ = ("t", "_h", "_s")

    def __init__(self, t=None):
        self.t = t or {}
        self._h = None
        self._s = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def sym(s):
        return Poly({((s, 1),): Fraction(1)})

    @staticmethod
    def of(x):
        if isinstance(x, Poly):
            return x
        return Poly.const(x)

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)):
            o = Poly.const(o)
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        o = Poly.of(o)
        r = dict(self.t)
        for k, v in o.t.items():
            n = r.get(k, 0) + v
            if n:
                r[k] = n
            else:
                r.pop(k, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __rsub__(self, o):
        return Poly.of(o) + (-self)

    def __mul__(self, o):
        o = Poly.of(o)
        r = {}
        for k1, v1 in self.t.items():
            for k2, v2 in o.t.items():
                d = dict(k1)
                for s, e in k2:
                    d[s] = d.get(s, 0) + e
                k = tuple(sorted(d.items()))
                n = r.get(k, 0) + v1 * v2
                if n:
                    r[k] = n
                else:
                    r.pop(k, None)
        return Poly(r)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = Poly.const(1)
        for _ in range(int(n)):
            r = r * self
        return r

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        """constant value or None"""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def syms(self):
        if self._s is None:
            self._s = frozenset(s for k in self.t for s, _ in k)
        return self._s

    def subst(self, s, p):
        if s not in self.syms():
            return self
        r = Poly()
        for k, v in self.t.items():
            q = Poly.const(v)
            for s2, e in k:
                q = q * ((p if s2 == s else Poly.sym(s2)) ** e)
            r = r + q
        return r

    def nonneg(self):
        """True when provably >= 0 for all non-negative symbol values"""
        return all(v >= 0 for v in self.t.values())

    def positive(self):
        return self.nonneg() and self.t.get((), 0) > 0

    def divconst(self, c):
        return Poly({k: v / Fraction(c) for k, v in self.t.items()})

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for k, v in sorted(self.t.items(), key=lambda kv: (-sum(e for _, e in kv[0]), kv[0])):
            m = "*".join(s if e == 1 else "%s^%d" % (s, e) for s, e in k)
            if not m:
                out.append(str(v))
            elif v == 1:
                out.append(m)
            else:
                out.append("%s*%s" % (v, m))
        return "+".join(out).replace("+-", "-")


ONE = Poly.const(1)
ZERO = Poly()


_cache = {}


def compare(a, b, facts=()):
    """sign information of a-b: returns a set of possible signs subset of {-1,0,1}"""
    d = a - b
    c = d.cval()
    if c is not None:
        return {(c > 0) - (c < 0)}
    ds = d.syms()
    rel = tuple(f for f in facts if not ds.isdisjoint(f.syms())) if facts else ()
    key = (d, rel)
    r = _cache.get(key)
    if r is None:
        if len(_cache) > 200000:
            _cache.clear()
        r = _cache[key] = frozenset(_compare(d, rel))
    return set(r)


def _compare(d, facts):
    poss = {-1, 0, 1}
    for f in (ZERO,) + facts:
        for k in (1, 2):
            g = f if k == 1 else f * 2
            e = d - g
            if e.nonneg():
                poss.discard(-1)
                if e.positive():
                    poss.discard(0)
            e = (-d) - g
            if e.nonneg():
                poss.discard(1)
                if e.positive():
                    poss.discard(0)
            if f is ZERO:
                break
    return poss

"""Normal forms of the terms the interpreter builds: sums of products, with matrix
products flattened, element-wise products commutative, transposes and column
selections pushed to the leaves.  Layout (reshape, broadcasting over rows) is ignored;
dimensions are decided elsewhere (C17)."""
from fractions import Fraction
from .values import Term

ONE_ = ("ew", ())
LEAF = {"in", "c", "dim"}
OPAQUE = {"phi", "u", "argmin", "top", "?"}
# operations whose application is a definite function of its arguments
KNOWN = {"mean", "median", "var", "std", "pow", "sqrt", "sum", "abs", "inv", "pinv", "sqrtm", "cov", "norm", "smparams", "addconst", "store", "idx", "eq", "sl", "full", "sign", "max", "min",
         "svd", "eigh", "eig", "nzidx", "setdiff1d", "union1d", "arangeP", "not", "lt", "le", "gt", "ge", "ne", "tile0", "trim_mean", "exp", "log", "argsort", "sort", "nanmean", "nanmedian", "T", "matmul",
         "mul", "div", "add", "sub", "negate", "hstack", "vstack", "concat", "ilist", "svdU", "svdS", "svdV", "none"}


def const(t):
    if isinstance(t, Term) and t.op == "c":
        try:
            x = float(t.args[0])
            return Fraction(x).limit_denominator(10 ** 9)
        except (ValueError, OverflowError):
            return None
    return None


class Norm:
    def __init__(self, flat=False):
        """flat: everything is element by element, transposes are layout"""
        self.memo, self.flat = {}, flat

    # ---------------------------------------------------------------- helpers
    def single(self, d):
        return len(d) == 1 and next(iter(d.values())) == 1

    def wrap(self, d):
        """one factor standing for a whole form"""
        if self.single(d):
            return next(iter(d))
        return ("sum", tuple(sorted(d.items(), key=repr)))

    def scale(self, d, c):
        return {k: v * c for k, v in d.items() if v * c}

    def plus(self, a, b, s=1):
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
            if not r[k]:
                del r[k]
        return r

    def ewfac(self, k):
        return list(k[1]) if k[0] == "ew" else [(k, Fraction(1))]

    def ew(self, fs):
        acc = {}
        for f, e in fs:
            acc[f] = acc.get(f, 0) + e
        fs = tuple(sorted(((f, e) for f, e in acc.items() if e), key=repr))
        if len(fs) == 1 and fs[0][1] == 1:
            return fs[0][0]
        return ("ew", fs)

    def mulk(self, a, b):
        return self.ew(self.ewfac(a) + self.ewfac(b))

    def mul(self, A, B):
        r = {}
        for a, ca in A.items():
            for b, cb in B.items():
                r = self.plus(r, {self.mulk(a, b): ca * cb})
        return r

    def power(self, A, e):
        if len(A) == 1:
            (k, c), = A.items()
            if c == 1 or e == -1 and c:
                return {self.ew([(f, x * e) for f, x in self.ewfac(k)]): Fraction(1) if c == 1 else 1 / c}
        return {("ew", ((self.wrap(A), Fraction(e)),)): Fraction(1)}

    def mmfac(self, k):
        return list(k[1]) if k[0] == "mm" else [k]

    def mm(self, A, B):
        r = {}
        for a, ca in A.items():
            for b, cb in B.items():
                r = self.plus(r, {("mm", tuple(self.mmfac(a) + self.mmfac(b))): ca * cb})
        return r

    def tr(self, k):
        if k[0] == "mm":
            return ("mm", tuple(self.tr(x) for x in reversed(k[1])))
        if k[0] == "ew":
            return self.ew([(self.tr(f), e) for f, e in k[1]])
        if k[0] == "T":
            return k[1]
        if k[0] == "sum":
            return ("sum", tuple(sorted(((self.tr(x), c) for x, c in k[1]), key=repr)))
        return ("T", k)

    def cols(self, k, K):
        """column selection"""
        if k[0] == "mm":
            return ("mm", k[1][:-1] + (self.cols(k[1][-1], K),))
        if k[0] == "ew":
            return self.ew([(self.cols(f, K), e) for f, e in k[1]])
        if k[0] == "sum":
            return ("sum", tuple(sorted(((self.cols(x, K), c) for x, c in k[1]), key=repr)))
        if k[0] == "op" and k[1] == "full":
            return k
        return ("cols", k, K)

    # ---------------------------------------------------------------- terms
    def nf(self, t):
        if not isinstance(t, Term):
            return {("lit", repr(t)): Fraction(1)}
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._nf(t)
        return r

    def key(self, t):
        if not isinstance(t, Term):
            return ("lit", repr(t))
        return self.wrap(self.nf(t))

    def is_all(self, t):
        return isinstance(t, Term) and t.op == "sl" and all(isinstance(a, Term) and a.op == "none" or a is None or a == "none" for a in t.args)

    def _nf(self, t):
        op, a = t.op, t.args
        c = const(t)
        if c is not None:
            return {ONE_: c} if c else {}
        if op == "add":
            return self.plus(self.nf(a[0]), self.nf(a[1]))
        if op == "sub":
            return self.plus(self.nf(a[0]), self.nf(a[1]), -1)
        if op in ("negate", "neg"):
            return self.scale(self.nf(a[0]), -1)
        if op == "mul":
            return self.mul(self.nf(a[0]), self.nf(a[1]))
        if op == "div":
            return self.mul(self.nf(a[0]), self.power(self.nf(a[1]), Fraction(-1)))
        if op == "matmul":
            return self.mm(self.nf(a[0]), self.nf(a[1]))
        if op in ("T", "transpose") and not self.flat:
            return {self.tr(k): v for k, v in self.nf(a[0]).items()}
        if op == "row" or self.flat and op == "T":
            return self.nf(a[0])
        if op == "tile0" or op == "stack" and len(a) == 1:
            return self.nf(a[0])
        if op == "full" and const(a[0]) is not None:
            c = const(a[0])
            return {ONE_: c} if c else {}
        if op == "pow":
            e = const(a[1])
            if e is not None:
                return self.power(self.nf(a[0]), e)
        if op == "sqrt":
            return self.power(self.nf(a[0]), Fraction(1, 2))
        if op == "square":
            return self.power(self.nf(a[0]), Fraction(2))
        if op == "store" and len(a) == 3 and isinstance(a[1], Term) and a[1].op == "eq" and const(a[2]) == 1:
            # zero scales replaced by one: the zero guard is decided under C11
            e = a[1].args
            for s, z in ((e[0], e[1]), (e[1], e[0])):
                if const(z) == 0 and self.nf(s) == self.nf(a[0]):
                    return self.nf(a[0])
        if op == "idx":
            src, ix = a[0], a[1:]
            if isinstance(src, Term) and src.op == "store" and src.args[1:-1] == ix:
                return self.nf(src.args[-1])
            if len(ix) == 2 and self.is_all(ix[0]):
                K = self.key(ix[1])
                return {self.cols(k, K): v for k, v in self.nf(src).items()}
            if len(ix) == 1 and not (isinstance(ix[0], Term) and ix[0].op in ("sl",)):
                K = self.key(ix[0])
                return {self.cols(k, K): v for k, v in self.nf(src).items()}
        return {("op", op) + tuple(self.key(x) for x in a): Fraction(1)}

    # ---------------------------------------------------------------- comparison
    def opaque(self, k, out=None):
        """leaves of a monomial whose value the term does not determine"""
        out = set() if out is None else out
        if isinstance(k, tuple):
            if len(k) > 1 and k[0] == "op" and (k[1] in OPAQUE or k[1] not in KNOWN and k[1] not in LEAF):
                out.add(k if k[1] in OPAQUE else k[1])
            for x in k:
                self.opaque(x, out)
        return out

    def compare(self, s, t):
        """True equal, False different, None undecided.  Different only when what is left
        of the difference is made of the same undetermined quantities on both sides, or
        is left on one side alone."""
        if s is None or t is None:
            return None
        d = self.plus(self.nf(s), self.nf(t), -1)
        if not d:
            return True
        a, b, allo = set(), set(), set()
        for k, v in d.items():
            self.opaque(k, a if v > 0 else b)
        if any(isinstance(x, str) for x in a | b):
            return None     # an operation of unknown meaning is involved
        if a == b:
            return False
        both = self.deep(s) & self.deep(t)
        return False if not b and not any(v < 0 for v in d.values()) and a <= both or not a and not any(v > 0 for v in d.values()) and b <= both else None

    def deep(self, t):
        out = set()
        for k in self.nf(t):
            self.opaque(k, out)
        return out

"""Abstract values of the interpreter."""
import itertools
from fractions import Fraction
from .poly import Poly, ONE, ZERO

_terms = {}
_tid = itertools.count(1)


class Term:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return show(self)


def T(op, *args):
    key = (op,) + tuple(("t", a.id) if isinstance(a, Term) else ("c", type(a).__name__, a) for a in args)
    t = _terms.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.id = op, args, next(_tid)
        _terms[key] = t
    return t


def show(t, depth=4):
    if not isinstance(t, Term):
        return str(t)
    if not t.args:
        return t.op
    if depth == 0:
        return t.op + "(..)"
    return "%s(%s)" % (t.op, ",".join(show(a, depth - 1) for a in t.args))


_uid = itertools.count(1)


def uid():
    return next(_uid)


NOROWS = ("none", frozenset())
UNKROWS = ("unk", frozenset())
NODEPS = frozenset()
DIMLESS = ()
ANYUNIT = "any"


_CANON = [False]


def ck(p):
    """dimension for signatures: unknown dimensions compare equal to one another"""
    if _CANON[0] and isinstance(p, Poly) and any(s[0] in "k?" for s in p.syms()):
        return "k"
    return p


class F:
    """facets: unit, row dependence, taint, value term"""
    __slots__ = ("unit", "rows", "deps", "term")

    def __init__(self, unit=None, rows=NOROWS, deps=NODEPS, term=None):
        self.unit, self.rows, self.deps, self.term = unit, rows, deps, term

    def w(self, **k):
        n = F(self.unit, self.rows, self.deps, self.term)
        for a, v in k.items():
            setattr(n, a, v)
        return n

    def key(self):
        return (self.unit, self.rows, self.deps)

    def __repr__(self):
        return "F(u=%s r=%s d=%s)" % (self.unit, self.rows, sorted(self.deps))


class Val:
    __slots__ = ()
    f = F()


class Const(Val):
    __slots__ = ("v", "f")

    def __init__(self, v, f=None):
        self.v = v
        self.f = f or F(DIMLESS, term=T("c", repr(v)))

    def key(self):
        return ("C", self.v if isinstance(self.v, (str, bool, type(None), bytes)) else repr(self.v), self.f.deps)

    def __repr__(self):
        return "Const(%r)" % (self.v,)


class Num(Val):
    __slots__ = ("ity", "c", "poly", "lo", "hi", "npy", "f")

    def __init__(self, ity="num", c=None, poly=None, lo=None, hi=None, npy=False, f=None):
        self.ity, self.c, self.poly, self.lo, self.hi, self.npy = ity, c, poly, lo, hi, npy
        if c is not None and not isinstance(c, complex):
            if self.lo is None and c == c:
                self.lo = self.hi = c
            if self.poly is None and isinstance(c, int):
                self.poly = Poly.const(c)
        if poly is not None and c is None:
            cv = poly.cval()
            if cv is not None and cv.denominator == 1:
                self.c = int(cv)
                self.lo = self.hi = self.c
            elif poly.nonneg() and self.lo is None:
                self.lo = float(poly.t.get((), 0))
        self.f = f or F()

    def w(self, **k):
        n = Num.__new__(Num)
        for s in Num.__slots__:
            setattr(n, s, getattr(self, s))
        for a, v in k.items():
            setattr(n, a, v)
        return n

    def key(self):
        return ("N", self.ity, repr(self.c), ck(self.poly), self.lo, self.hi, self.npy, self.f.key())

    def __repr__(self):
        return "Num(%s c=%s poly=%s [%s,%s] %r)" % (self.ity, self.c, self.poly, self.lo, self.hi, self.f)


def num(c, f=None):
    if isinstance(c, bool):
        return Const(c)
    return Num("int" if isinstance(c, int) else "float", c=c,
               f=f or F(ANYUNIT if c == 0 else DIMLESS, term=T("c", repr(c))))


class Str(Val):
    __slots__ = ("f",)

    def __init__(self, f=None):
        self.f = f or F()

    def key(self):
        return ("S", self.f.deps)

    def __repr__(self):
        return "Str"


class Arr(Val):
    """array, data frame, series, matrix"""
    __slots__ = ("shape", "cont", "dt", "bufs", "vid", "lo", "hi", "f", "lab")

    def __init__(self, shape, cont="nd", dt="f", bufs=None, vid=None, lo=None, hi=None, f=None, lab=None):
        self.shape = tuple(shape) if shape is not None else None
        self.cont, self.dt = cont, dt
        self.vid = vid or uid()
        self.bufs = bufs if bufs is not None else frozenset([("new", self.vid)])
        self.lo, self.hi = lo, hi
        self.f = f or F()
        self.lab = lab

    def w(self, **k):
        n = Arr.__new__(Arr)
        for s in Arr.__slots__:
            setattr(n, s, getattr(self, s))
        for a, v in k.items():
            setattr(n, a, v)
        return n

    def key(self):
        b = frozenset(x for x in self.bufs if x[0] != "new")
        sh = self.shape
        if _CANON[0] and sh is not None:
            sh = tuple(ck(d) for d in sh)
        return ("A", sh, self.cont, self.dt, b, self.lo, self.hi, self.f.key())

    def __repr__(self):
        return "Arr(%s %s %s bufs=%s %r)" % (self.shape, self.cont, self.dt, sorted(map(str, self.bufs)), self.f)


class Tup(Val):
    __slots__ = ("items", "f")

    def __init__(self, items):
        self.items = tuple(items)
        d = NODEPS
        for i in self.items:
            d = d | i.f.deps
        self.f = F(deps=d)

    def key(self):
        return ("T",) + tuple(i.key() for i in self.items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Ref(Val):
    """reference to a heap object (list, dict, instance, opaque external object)"""
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def key(self):
        return ("R", self.oid)

    def __repr__(self):
        return "Ref(%s)" % (self.oid,)


class Func(Val):
    __slots__ = ("node", "mod", "closure", "defaults", "kwdefaults", "self_", "owner", "name", "kind")

    def __init__(self, node, mod, closure=None, defaults=(), kwdefaults=(), self_=None, owner=None, name=None, kind=None):
        self.node, self.mod, self.closure = node, mod, closure
        self.defaults, self.kwdefaults, self.self_, self.owner = defaults, kwdefaults, self_, owner
        self.name = name or getattr(node, "name", "<lambda>")
        self.kind = kind

    def key(self):
        return ("Fn", id(self.node), self.self_.key() if self.self_ else None)

    def __repr__(self):
        return "Func(%s)" % self.name


class Cls(Val):
    __slots__ = ("node", "mod", "name", "bases", "ns", "qual")

    def __init__(self, node, mod, bases, ns):
        self.node, self.mod, self.name, self.bases, self.ns = node, mod, node.name, bases, ns
        self.qual = mod.name + "." + node.name

    def key(self):
        return ("Cl", self.qual)

    def __repr__(self):
        return "Cls(%s)" % self.name


class Ext(Val):
    """external dotted name, or builtin ('builtins.x')"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def key(self):
        return ("E", self.path)

    def __repr__(self):
        return "Ext(%s)" % self.path


class ModV(Val):
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod

    def key(self):
        return ("M", self.mod.name)


class Meth(Val):
    """bound method of a non-instance abstract value"""
    __slots__ = ("recv", "name", "place")

    def __init__(self, recv, name, place=None):
        self.recv, self.name, self.place = recv, name, place

    def key(self):
        return ("Me", self.recv.key(), self.name)

    def __repr__(self):
        return "Meth(%r.%s)" % (self.recv, self.name)


class Slice(Val):
    __slots__ = ("a", "b", "s")

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def key(self):
        return ("Sl", self.a.key(), self.b.key(), self.s.key())


class Rng(Val):
    """range / arange-like lazy sequence of integers"""
    __slots__ = ("a", "b", "step", "f")

    def __init__(self, a, b, step, f=None):
        self.a, self.b, self.step = a, b, step
        self.f = f or F(DIMLESS)

    def key(self):
        return ("Rg", ck(self.a), ck(self.b), self.step)

    def __repr__(self):
        return "Rng(%s,%s)" % (self.a, self.b)


class Seq(Val):
    """lazy sequence of unknown or symbolic length with one abstract element"""
    __slots__ = ("elem", "len", "f")

    def __init__(self, elem, length=None):
        self.elem, self.len = elem, length
        self.f = elem.f if elem is not None else F()

    def key(self):
        return ("Sq", self.elem.key() if self.elem else None, ck(self.len))


class Opaque(Val):
    """value of unknown structure but known facets (external results, option tokens)"""
    __slots__ = ("tag", "f", "bufs")

    def __init__(self, tag, f=None, bufs=NODEPS):
        self.tag = tag
        self.f = f or F()
        self.bufs = bufs

    def key(self):
        return ("O", self.tag, self.f.key())

    def __repr__(self):
        return "Opaque(%s)" % (self.tag,)


class _Top(Val):
    __slots__ = ("f",)

    def __init__(self, f=None):
        self.f = f or F(rows=UNKROWS)

    def key(self):
        return ("Top", self.f.deps)

    def __repr__(self):
        return "Top%s" % (sorted(self.f.deps) or "")


def Top(deps=NODEPS):
    return _Top(F(rows=UNKROWS, deps=deps))


TopT = _Top


class _Undef(Val):
    __slots__ = ()

    def key(self):
        return ("Undef",)

    def __repr__(self):
        return "Undef"


UNDEF = _Undef()


class Union(Val):
    __slots__ = ("opts", "f")

    def __init__(self, opts):
        self.opts = tuple(opts)
        d = NODEPS
        for i in self.opts:
            d = d | i.f.deps
        self.f = F(rows=UNKROWS, deps=d)

    def key(self):
        return ("U",) + tuple(sorted((o.key() for o in self.opts), key=repr))

    def __repr__(self):
        return "Union%r" % (self.opts,)


# ---------------------------------------------------------------- heap objects
class ListObj:
    __slots__ = ("items", "elem", "len", "tag")

    def __init__(self, items=None, elem=None, length=None, tag=None):
        self.items, self.elem, self.len, self.tag = items, elem, length, tag

    def copy(self):
        return ListObj(list(self.items) if self.items is not None else None, self.elem, self.len, self.tag)

    def sig(self):
        return ("L", tuple(i.key() for i in self.items) if self.items is not None else None,
                self.elem.key() if self.elem else None, ck(self.len), self.tag)

    def values(self):
        if self.items is not None:
            return list(self.items)
        return [self.elem] if self.elem is not None else []


class DictObj:
    __slots__ = ("d", "open", "elem", "tag", "default")

    def __init__(self, d=None, open_=False, elem=None, tag=None, default=None):
        self.d, self.open, self.elem, self.tag, self.default = dict(d or {}), open_, elem, tag, default

    def copy(self):
        return DictObj(self.d, self.open, self.elem, self.tag, self.default)

    def sig(self):
        return ("D", tuple((k, v.key()) for k, v in self.d.items()), self.open, self.elem.key() if self.elem else None, self.tag)

    def values(self):
        return list(self.d.values()) + ([self.elem] if self.elem is not None else [])


class Obj:
    __slots__ = ("cls", "attrs", "tag")

    def __init__(self, cls, attrs=None, tag=None):
        self.cls, self.attrs, self.tag = cls, dict(attrs or {}), tag

    def copy(self):
        return Obj(self.cls, self.attrs, self.tag)

    def sig(self):
        return ("I", self.cls.key(), tuple(sorted((k, v.key()) for k, v in self.attrs.items() if v is not UNDEF)), self.tag)

    def values(self):
        return list(self.attrs.values())


class ExtObj:
    """instance of an external class with modelled attributes"""
    __slots__ = ("kind", "attrs", "f", "tag")

    def __init__(self, kind, attrs=None, f=None, tag=None):
        self.kind, self.attrs, self.f, self.tag = kind, dict(attrs or {}), f or F(), tag

    def copy(self):
        return ExtObj(self.kind, self.attrs, self.f, self.tag)

    def sig(self):
        return ("X", self.kind, tuple(sorted((k, v.key()) for k, v in self.attrs.items())), self.f.key(), self.tag)

    def values(self):
        return list(self.attrs.values())


# ---------------------------------------------------------------- facet algebra
def junit(a, b):
    if a == b:
        return a
    if a == ANYUNIT:
        return b
    if b == ANYUNIT:
        return a
    return None


def umul(a, b, sign=1):
    if a is None or b is None:
        return None
    if a == ANYUNIT or b == ANYUNIT:
        return ANYUNIT
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, Fraction(0)) + sign * v
        if not d[k]:
            del d[k]
    return tuple(sorted(d.items()))


def unonhom(a):
    """unit of a quantity that does not follow a change of units (rounded, exponentiated)"""
    if a is None or a == ANYUNIT or a == DIMLESS or "nonlinear" in dict(a):
        return a
    return umul(a, (("nonlinear", Fraction(1)),))


def upow(a, q):
    if a is None or a == ANYUNIT:
        return a
    q = Fraction(q).limit_denominator(1000)
    return tuple(sorted((k, v * q) for k, v in a if v * q))


def ushow(u):
    if u is None:
        return "unknown"
    if u == ANYUNIT:
        return "any"
    if not u:
        return "none"
    return "*".join(k if v == 1 else "%s^%s" % (k, v) for k, v in u)


_KORD = {"none": 0, "pt": 1, "inv": 1, "equi": 2, "ord": 3, "idx": 3, "unk": 4}


def jrows(a, b):
    """least upper bound for joins and for elementwise combination (axes already aligned)"""
    if a == b:
        return a
    ka, xa = a
    kb, xb = b
    if ka == "ord" or kb == "ord":
        return ("ord", xa | xb)
    if ka == "unk" or kb == "unk":
        return UNKROWS
    if ka == "idx" or kb == "idx":
        return UNKROWS      # case numbers mixed with data
    if ka == "none":
        return (kb, xa | xb)
    if kb == "none":
        return (ka, xa | xb)
    if ka == kb == "pt":
        if xa == xb:
            return a
        return ("equi", xa | xb)
    if ka == kb == "inv":
        return a
    return ("equi", xa | xb)


def allrows(r):
    """row facet of a value computed from all entries, symmetrically"""
    k, x = r
    if k == "none":
        return NOROWS
    if k in ("pt", "inv", "equi"):
        return ("inv", frozenset())
    if k == "idx":
        return ("ord", frozenset())
    return (k, frozenset())

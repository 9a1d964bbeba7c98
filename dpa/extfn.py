"""Function and method tables: numpy, scipy, pandas, sklearn, statsmodels, dcor, builtins."""
import math
import ast
from statistics import NormalDist
from fractions import Fraction
from .poly import Poly, ONE, ZERO
from .values import *
from .state import jval, Ctx, mkunion
from .interp import pykey, const_of, neg, bind, AbsRaise, Infeasible
from . import ext as X

NONE = Const(None)
INV = ("inv", frozenset())
HALF = Fraction(1, 2)


def isnone(v):
    return v is None or isinstance(v, Const) and v.v is None


def ga(args, kw, i, name, default=None):
    if name in kw:
        return kw[name]
    if i is not None and i < len(args):
        return args[i]
    return default


def ival(v):
    """python int of a constant number"""
    if isinstance(v, Num) and v.c is not None:
        return int(v.c)
    if isinstance(v, Const) and isinstance(v.v, bool):
        return int(v.v)
    return None


def truthy(v, default=False):
    if v is None:
        return default
    if isinstance(v, Const):
        return bool(v.v)
    if isinstance(v, Num) and v.c is not None:
        return bool(v.c)
    return None


def arr_or_err(I, v, node, what):
    a = X.as_arr(I, v)
    if a is None and isinstance(v, Const) and v.v is None:
        I.err("TypeError", "%s of None" % what, node)
    return a


# ================================================================= elementwise
u_one = lambda u: DIMLESS


def _elem1(op, unit=lambda u: u, dt=None, iv=None):
    def f(I, args, kw, node):
        v = args[0]
        if isinstance(v, (Tup, Seq, Ref)):
            a = X.as_arr(I, v)
            v = a if a is not None else v
        u = v.f.unit
        lo = hi = None
        if iv is not None:
            lo, hi = iv(*X.num_iv(v))
        return X.elementwise(I, node, [v], op, unit=unit(u) if u is not None or unit is u_one else None, dt=dt, lo=lo, hi=hi, npy=True)
    return f


def iv_abs(lo, hi):
    if lo is not None and lo >= 0:
        return lo, hi
    if hi is not None and hi <= 0:
        return -hi, None if lo is None else -lo
    return 0, (max(-lo, hi) if lo is not None and hi is not None else None)


def iv_sq(lo, hi):
    a, b = iv_abs(lo, hi)
    return a * a, None if b is None else b * b


def iv_sqrt(lo, hi):
    return (math.sqrt(lo) if lo is not None and lo >= 0 else 0), (math.sqrt(hi) if hi is not None and hi >= 0 else None)


def iv_sign(lo, hi):
    return (1 if lo is not None and lo > 0 else 0 if lo is not None and lo >= 0 else -1), (0 if hi is not None and hi <= 0 else 1)


def udimless(u):
    return DIMLESS if u in (DIMLESS, ANYUNIT) else None


def unonlin(u):
    return DIMLESS if u in (DIMLESS, ANYUNIT) else unonhom(u)


def np_abs(I, args, kw, node):
    v = args[0]
    if isinstance(v, Num) and v.c is not None:
        return Num(v.ity, c=abs(v.c), npy=v.npy, f=v.f.w(term=T("c", repr(abs(v.c)))))
    if isinstance(v, Num) and v.poly is not None and v.poly.nonneg():
        return v
    if isinstance(v, (Const, Str, Tup)) and not (isinstance(v, Const) and isinstance(v.v, bool)):
        I.err("TypeError", "bad operand type for abs()", node)
    lo, hi = iv_abs(*X.num_iv(v))
    t = X.tt(v)
    if lo is not None and X.num_iv(v)[0] is not None and X.num_iv(v)[0] >= 0:
        term = t
    else:
        term = T("abs", t)
    return X.elementwise(I, node, [v], "abs", unit=v.f.unit, lo=lo, hi=hi, term=term, npy=True if not isinstance(v, Num) else v.npy)


def np_sqrt(I, args, kw, node):
    v = args[0]
    if isinstance(v, Num) and v.c is not None and v.c >= 0:
        return Num("float", c=math.sqrt(v.c), npy=True, f=v.f.w(unit=upow(v.f.unit, HALF) if v.f.unit is not None else None, term=T("sqrt", X.tt(v))))
    lo, hi = iv_sqrt(*X.num_iv(v))
    return X.elementwise(I, node, [v], "sqrt", unit=upow(v.f.unit, HALF) if v.f.unit is not None else None, dt="f", lo=lo, hi=hi, npy=True)


def np_square(I, args, kw, node):
    v = args[0]
    lo, hi = iv_sq(*X.num_iv(v))
    return X.elementwise(I, node, [v], "square", unit=upow(v.f.unit, 2) if v.f.unit is not None else None, lo=lo, hi=hi, term=T("mul", X.tt(v), X.tt(v)), npy=True)


def _bin(op):
    def f(I, args, kw, node):
        a, b = args[0], args[1]
        for x in (a, b):
            if isinstance(x, Const) and not isinstance(x.v, bool):
                I.err("TypeError", "unsupported operand for %s" % op, node)
        r = X.arith(I, op, a, b, node)
        if isinstance(r, Num):
            r = r.w(npy=True)
        if isinstance(r, Arr) and r.shape == ():
            r = X.scalar_or_arr(r)
        return np_out(I, r, kw, node)
    return f


def np_out(I, r, kw, node):
    o = kw.get("out")
    if isinstance(o, Arr) and isinstance(r, Arr):
        X.write(I, o, o.w(f=r.f, lo=r.lo, hi=r.hi), node, full=True)
        return o
    return r


def _minmax2(op):
    def f(I, args, kw, node):
        a, b = args[0], args[1]
        (la, ha), (lb, hb) = X.num_iv(a), X.num_iv(b)
        if op == "maximum":
            lo = max([x for x in (la, lb) if x is not None], default=None)
            hi = max(ha, hb) if ha is not None and hb is not None else None
        else:
            hi = min([x for x in (ha, hb) if x is not None], default=None)
            lo = min(la, lb) if la is not None and lb is not None else None
        ua, ub = a.f.unit, b.f.unit
        u = junit(ua, ub) if ua is not None and ub is not None else None
        if ua is not None and ub is not None and u is None:
            I.emit("unit-compare", node, units=X.ushow(ua) + " vs " + X.ushow(ub))
        if u is None and isinstance(b, Num) and b.c is not None:
            u = ua
        if u is None and isinstance(a, Num) and a.c is not None:
            u = ub
        return X.elementwise(I, node, [a, b], op, unit=u, lo=lo, hi=hi, npy=True)
    return f


def _cmpfn(op):
    def f(I, args, kw, node):
        return X.compare(I, op(), args[0], args[1], node)
    return f


def _logic(op):
    def f(I, args, kw, node):
        return X.logical(I, op, args[0], args[1], node)
    return f


# ================================================================= reductions
def reduce_rows(I, a, axis):
    """rows facet after a symmetric reduction along axis (None: everything)"""
    k, ax = a.f.rows
    if axis is None:
        return allrows(a.f.rows)
    rest = frozenset(x if x < axis else x - 1 for x in ax if x != axis)
    if axis in ax:
        if k in ("pt", "equi"):
            return ("equi", rest) if rest else INV
        if k == "idx":
            return ("ord", rest)
        return (k, rest)
    return (k, rest)


def norm_axis(I, a, axis, node):
    if axis is None:
        return None
    R = len(a.shape)
    if axis < 0:
        axis += R
    if axis >= R or axis < 0:
        I.err("AxisError", "axis %s is out of bounds for array of dimension %d" % (axis, R), node)
    return axis


def reduction(op, unit=lambda u, n=None: u, dt=None, iv=lambda lo, hi: (None, None), order=False, axpos=1, keep=True, scont=True):
    def f(I, args, kw, node):
        v = args[0]
        a = arr_or_err(I, v, node, op)
        axv = ga(args, kw, axpos, "axis")
        deps = X.alldeps([x for x in args] + [x for k, x in kw.items()])
        if a is None:
            return X.unknown(I, *(list(args) + list(kw.values())))
        u = unit(a.f.unit) if a.f.unit is not None else None
        lo, hi = iv(a.lo, a.hi)
        ax = None
        if not isnone(axv):
            ax = ival(axv)
            if ax is None:
                if isinstance(axv, Tup):
                    ax = None
                else:
                    return X.unknown(I, *args)
        elif a.cont == "frame" and "axis" not in kw and len(args) <= axpos and op not in ("median", "nansum", "norm"):
            ax = 0
        d = dt or a.dt
        kd = truthy(kw.get("keepdims"), False)
        extra = tuple(str(k) + "=" + show(X.tt(x), 2) for k, x in sorted(kw.items()) if k not in ("axis", "keepdims", "dtype"))
        extra = extra + tuple(show(X.tt(x), 2) for i, x in enumerate(args) if i and i != axpos)
        if a.shape is None:
            rk = NOROWS if a.f.rows[0] == "none" else (INV if ax is None and a.f.rows[0] in ("inv", "pt", "equi") else UNKROWS)
            t = T(op, X.tt(v), str(ax), *extra)
            if ax is None:
                return Num("float", lo=lo, hi=hi, npy=True, f=F(u, rk, deps, t))
            return Arr(None, dt=d, lo=lo, hi=hi, f=F(u, rk, deps, t))
        ax = norm_axis(I, a, ax, node)
        if ax is not None and len(a.shape) == 1:
            ax = None
        t = T(op, X.tt(v), str(ax), *extra)
        rows = reduce_rows(I, a, ax)
        if order and a.f.rows[1]:
            if ax is None or ax in a.f.rows[1]:
                rows = ("ord", rows[1])
        shape = () if ax is None else a.shape[:ax] + a.shape[ax + 1:]
        n = X.size(a) if ax is None else a.shape[ax]
        if op in ("max", "min") and n == ZERO:
            I.err("ValueError", "zero-size array to reduction operation", node)
        if kd:
            shape = tuple(ONE for _ in a.shape) if ax is None else a.shape[:ax] + (ONE,) + a.shape[ax + 1:]
            if ax is not None:
                k, xs = rows
                rows = (k, frozenset(x if x < ax else x + 1 for x in xs))
        cont = "nd"
        if a.cont == "frame" and shape != () and scont:
            cont = "series"
        if a.cont == "mat":
            cont = "mat"
            if shape != ():
                shape = a.shape[:ax] + (ONE,) + a.shape[ax + 1:] if ax is not None else shape
                rows = (rows[0], frozenset(x if ax is None or x < ax else x + 1 for x in rows[1]))
        return X.scalar_or_arr(Arr(shape, cont, d, lo=lo, hi=hi, f=F(u, rows, deps, t)))
    return f


def iv_sum(lo, hi):
    return (0 if lo is not None and lo >= 0 else None), (0 if hi is not None and hi <= 0 else None)


def iv_keep(lo, hi):
    return lo, hi


def iv_nn(lo, hi):
    if lo is not None and lo == hi:
        return 0, 0
    return 0, None


def iv_bool(lo, hi):
    if lo is not None and lo == hi and lo in (0, 1):
        return lo, hi
    return 0, 1


def py_minmax(op):
    """builtin max / min"""
    def f(I, args, kw, node):
        if len(args) == 1:
            v = args[0]
            its = I.exact_items(v)
            if its is None:
                if isinstance(v, Arr):
                    if v.shape is not None and len(v.shape) == 2 and v.shape[1] != ONE and X.generic(v.shape[1]):
                        I.err("ValueError", "truth value of an array with more than one element is ambiguous", node)
                    if v.shape is not None and len(v.shape) == 2:
                        r = FN["numpy." + op](I, [v, num(0)], {}, node)
                        return r
                    return FN["numpy." + op](I, [v], {}, node)
                e, _ = I.elem_of(v)
                return e
            args = its
            if not args:
                if "default" in kw:
                    return kw["default"]
                I.err("ValueError", "%s() arg is an empty sequence" % op, node)
        res = args[0]
        for b in args[1:]:
            res = pair(I, op, res, b, node)
        return res

    def pair(I, op, a, b, node):
        if isinstance(a, Union) or isinstance(b, Union):
            return I.over_union(lambda x, y: pair(I, op, x, y, node), a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and not isinstance(x.v, bool) and isinstance(y, (Num, Arr)):
                I.err("TypeError", "'<' not supported between these types", node)
        if isinstance(a, Num) and isinstance(b, Num):
            if a.c is not None and b.c is not None:
                return a if (a.c >= b.c) == (op == "max") else b
            pa, pb = X.topoly(a), X.topoly(b)
            if pa is not None and pb is not None:
                s = I.st.cmp(pa, pb)
                if -1 not in s:
                    return a if op == "max" else b
                if 1 not in s:
                    return b if op == "max" else a
            (la, ha), (lb, hb) = X.num_iv(a), X.num_iv(b)
            if la is not None and hb is not None and la >= hb:
                return a if op == "max" else b
            if lb is not None and ha is not None and lb >= ha:
                return b if op == "max" else a
            if op == "max":
                lo, hi = max([x for x in (la, lb) if x is not None], default=None), (max(ha, hb) if None not in (ha, hb) else None)
            else:
                hi, lo = min([x for x in (ha, hb) if x is not None], default=None), (min(la, lb) if None not in (la, lb) else None)
            t = T(op, *sorted((X.numterm(a), X.numterm(b)), key=lambda z: z.id))
            poly = None
            ity = "int" if a.ity == b.ity == "int" else "float" if "float" in (a.ity, b.ity) else "num"
            if ity == "int":
                poly = X.dyn(t)
            if poly is not None and pa is not None and pb is not None:
                # bounds of the unknown minimum or maximum
                I.st.sym = I.st.sym + ((pa - poly, pb - poly) if op == "min" else (poly - pa, poly - pb))
                low = [q for q in (pa, pb)]
                if op == "min" and all(not (I.st.cmp(q, ONE) & {-1}) for q in low):
                    I.st.sym = I.st.sym + (poly - 1,)
                if op == "max" and any(not (I.st.cmp(q, ONE) & {-1}) for q in low):
                    I.st.sym = I.st.sym + (poly - 1,)
            return Num(ity, poly=poly, lo=lo, hi=hi, npy=a.npy or b.npy, f=F(junit(a.f.unit, b.f.unit), jrows(allrows(a.f.rows), allrows(b.f.rows)), a.f.deps | b.f.deps, t))
        for x in (a, b):
            if isinstance(x, Arr) and x.shape is not None:
                sz = X.size(x)
                if sz != ONE and X.generic(sz):
                    I.err("ValueError", "truth value of an array with more than one element is ambiguous", node)
        return X.unknown(I, a, b)
    return f


def py_sum(I, args, kw, node):
    v = args[0]
    if isinstance(v, Arr):
        return FN["numpy.sum"](I, [v, num(0)] if v.shape is not None and len(v.shape) > 1 else [v], {}, node)
    its = I.exact_items(v)
    if its is not None and len(its) <= 40:
        r = num(0)
        for x in its:
            r = I.binop(ast.Add(), r, x, node)
        return r
    e, _ = I.elem_of(v)
    if isinstance(e, (Num, Arr)):
        u = e.f.unit
        r = e.w(f=e.f.w(term=T("u", uid()), rows=allrows(e.f.rows) if isinstance(e, Num) else e.f.rows), lo=0 if e.lo is not None and e.lo >= 0 else None, hi=None)
        if isinstance(r, Num):
            r = r.w(c=None, poly=None)
        return r
    return X.unknown(I, v)


def py_anyall(op):
    def f(I, args, kw, node):
        v = args[0]
        its = I.exact_items(v)
        if its is not None and not isinstance(v, Arr):
            ts = [I.truth(x) for x in its]
            d = X.alldeps(its)
            if op == "any":
                if any(t is True for t in ts):
                    return X.boolv(True, d)
                if all(t is False for t in ts):
                    return X.boolv(False, d)
            else:
                if all(t is True for t in ts):
                    return X.boolv(True, d)
                if any(t is False for t in ts):
                    return X.boolv(False, d)
            return X.unkbool(*its) if its else X.boolv(op == "all")
        if isinstance(v, Arr):
            if v.shape is not None and len(v.shape) > 1 and v.shape[1] != ONE and X.generic(v.shape[1]):
                I.err("ValueError", "truth value of an array with more than one element is ambiguous", node)
            r = FN["numpy." + op](I, [v], {}, node)
            return r.w(npy=False) if isinstance(r, Num) else r
        return X.unkbool(v)
    return f


# ================================================================= constructors
def shape_polys(I, v, node):
    """(list of Poly, deps) of a shape argument, or None"""
    if isinstance(v, (Num, Const)):
        p = X.topoly(v)
        if p is None:
            if isinstance(v, Num):
                if v.ity == "float" and not v.npy or v.ity == "float" and v.c is not None and v.c != int(v.c):
                    I.err("TypeError", "'float' object cannot be interpreted as an integer", node)
                return [X.dyn(X.numterm(v))], v.f.deps
            I.err("TypeError", "invalid shape", node)
        if isinstance(v, Num) and v.ity == "float":
            I.err("TypeError", "'float' object cannot be interpreted as an integer", node)
        return [p], v.f.deps
    its = I.exact_items(v)
    if its is None:
        return None
    out, d = [], NODEPS
    for x in its:
        r = shape_polys(I, x, node)
        if r is None:
            return None
        out += r[0]
        d = d | r[1]
    for p in out:
        if I.st.cmp(p, ZERO) == {-1}:
            I.err("ValueError", "negative dimensions are not allowed", node)
    return out, d


def _filled(op, unit, val):
    def f(I, args, kw, node):
        s = ga(args, kw, 0, "shape")
        r = shape_polys(I, s, node)
        d = X.dtype_code(ga(args, kw, 1, "dtype")) or "f"
        deps = X.alldeps(args)
        if op == "empty":
            deps = deps | {"uninit"}
        if r is None:
            return Arr(None, dt=d, lo=val, hi=val, f=F(unit, NOROWS, deps, T("u", uid())))
        sh, dd = r
        return Arr(tuple(sh), dt=d, lo=val, hi=val, f=F(unit, NOROWS, dd | deps, T(op, repr(tuple(sh)))))
    return f


def np_full(I, args, kw, node):
    r = shape_polys(I, args[0], node)
    v = ga(args, kw, 1, "fill_value")
    lo, hi = X.num_iv(v)
    sh = None if r is None else tuple(r[0])
    return Arr(sh, dt="f", lo=lo, hi=hi, f=F(v.f.unit, v.f.rows, v.f.deps | args[0].f.deps, T("full", X.tt(v), repr(sh))))


def _like(op):
    def f(I, args, kw, node):
        a = X.as_arr(I, args[0])
        if a is None or a.shape is None:
            return X.unknown(I, *args)
        val = {"zeros": 0, "ones": 1}.get(op)
        deps = NODEPS if op != "empty" else frozenset({"uninit"})
        d = X.dtype_code(ga(args, kw, 1, "dtype")) or a.dt
        lo = hi = val
        if op == "full":
            v = ga(args, kw, 1, "fill_value")
            lo, hi = X.num_iv(v)
            return Arr(a.shape, dt=a.dt, lo=lo, hi=hi, f=F(v.f.unit, v.f.rows, v.f.deps, T("full", X.tt(v), repr(a.shape))))
        return Arr(a.shape, dt=d, lo=lo, hi=hi, f=F(ANYUNIT if op != "ones" else DIMLESS, NOROWS, deps, T(op, repr(a.shape))))
    return f


def np_eye(I, args, kw, node):
    r = shape_polys(I, args[0], node)
    d = X.dtype_code(kw.get("dtype")) or "f"
    sh = (r[0][0], r[0][0])
    if len(args) > 1 and not isnone(args[1]):
        sh = (r[0][0], shape_polys(I, args[1], node)[0][0])
    rows = ("equi", frozenset([0, 1])) if I.is_case(sh[0]) else NOROWS
    return Arr(sh, dt=d, lo=0, hi=1, f=F(DIMLESS, rows, r[1], T("eye", repr(sh))))


def np_arange(I, args, kw, node):
    a = [x for x in args]
    if len(a) == 1:
        s, e, st = num(0), a[0], num(1)
    elif len(a) == 2:
        s, e, st = a[0], a[1], num(1)
    else:
        s, e, st = a[:3]
    ps, pe, k = X.topoly(s), X.topoly(e), ival(st)
    deps = X.alldeps(args)
    if isinstance(s, Num) and s.ity == "float" or isinstance(e, Num) and e.ity == "float" or isinstance(st, Num) and st.ity == "float":
        return Arr((X.dyn(),), dt="f", f=F(DIMLESS, NOROWS, deps, T("u", uid())))
    if ps is None or pe is None or k is None:
        return Arr((X.dyn(),), dt="i", f=F(DIMLESS, NOROWS, deps, T("u", uid())))
    if k != 1:
        if ps.is_const() and pe.is_const():
            n = len(range(int(ps.cval()), int(pe.cval()), k))
            return Arr((Poly.const(n),), dt="i", f=F(DIMLESS, NOROWS, deps, T("arangeS", ps, pe, k)))
        return Arr((X.dyn(),), dt="i", f=F(DIMLESS, UNKROWS if I.is_case(pe - ps) else NOROWS, deps, T("u", uid())))
    n = pe - ps
    s_ = I.st.cmp(n, ZERO)
    if s_ <= {-1, 0}:
        n = ZERO
    elif -1 in s_ and not X.generic(n):
        n = X.dyn()
    rows = ("ord", frozenset([0])) if I.is_case(n) else NOROWS
    lo = float(ps.cval()) if ps.is_const() else (0 if ps.nonneg() else None)
    return Arr((n,), dt="i", lo=lo, f=F(DIMLESS, rows, deps, T("arangeP", ps, pe)))


def np_linspace(I, args, kw, node):
    a, b = args[0], args[1]
    n = ga(args, kw, 2, "num")
    p = X.topoly(n) if n is not None else Poly.const(50)
    if p is None:
        p = X.dyn(X.numterm(n) if isinstance(n, Num) else None)
    (la, ha), (lb, hb) = X.num_iv(a), X.num_iv(b)
    lo = min(la, lb) if None not in (la, lb) else None
    hi = max(ha, hb) if None not in (ha, hb) else None
    return Arr((p,), dt="f", lo=lo, hi=hi, f=F(junit(a.f.unit, b.f.unit) if None not in (a.f.unit, b.f.unit) else None, NOROWS, X.alldeps(list(args)), T("linspace", X.tt(a), X.tt(b), repr(p), show(X.tt(kw["endpoint"])) if "endpoint" in kw else "T")))


def np_repeat(I, args, kw, node):
    v = args[0]
    a = X.as_arr(I, v)
    rp = ga(args, kw, 1, "repeats")
    axv = ga(args, kw, 2, "axis")
    n = X.topoly(rp)
    if a is None or a.shape is None:
        return X.unknown(I, *args)
    if n is None:
        n = X.dyn(X.numterm(rp) if isinstance(rp, Num) else None)
    if isnone(axv):
        sz = X.size(a)
        sh = (sz * n,)
        rows = a.f.rows if not a.f.rows[1] else UNKROWS
        if a.shape == () or sz == ONE:
            rows = (a.f.rows[0], frozenset())
        return Arr(sh, dt=a.dt, lo=a.lo, hi=a.hi, f=F(a.f.unit, rows, a.f.deps | rp.f.deps, T("full", X.tt(v), repr(sh)) if sz == ONE else T("repeat", X.tt(v), repr(n))))
    k = norm_axis(I, a, ival(axv) or 0, node)
    sh = a.shape[:k] + (a.shape[k] * n,) + a.shape[k + 1:]
    rows = a.f.rows if k not in a.f.rows[1] else UNKROWS
    return Arr(sh, dt=a.dt, lo=a.lo, hi=a.hi, f=F(a.f.unit, rows, a.f.deps | rp.f.deps, T("bcast", X.tt(v), repr(sh)) if a.shape[k] == ONE else T("repeat", X.tt(v), repr(n), k)))


def np_tile(I, args, kw, node):
    a = X.as_arr(I, args[0])
    r = shape_polys(I, args[1], node)
    if a is None or a.shape is None or r is None:
        return X.unknown(I, *args)
    reps = r[0]
    sh = list(a.shape)
    off = 0
    while len(sh) < len(reps):
        sh.insert(0, ONE)
        off += 1
    reps = [ONE] * (len(sh) - len(reps)) + list(reps)
    new = tuple(x * y for x, y in zip(sh, reps))
    k, ax = a.f.rows
    ax = frozenset(x + off for x in ax)
    if any(reps[x] != ONE for x in ax):
        rows = UNKROWS
    else:
        rows = (k, ax)
    bc = all(y == ONE or x == ONE for x, y in zip(sh, reps))
    return Arr(new, dt=a.dt, lo=a.lo, hi=a.hi, f=F(a.f.unit, rows, a.f.deps | r[1], X.tt(args[0]) if bc else T("tile", X.tt(args[0]), repr(reps))))


def np_broadcast_to(I, args, kw, node):
    a = X.as_arr(I, args[0])
    r = shape_polys(I, args[1], node)
    if a is None or a.shape is None or r is None:
        return X.unknown(I, *args)
    sh = X.bcast(I, [a.shape, tuple(r[0])], node)
    off = len(sh) - len(a.shape)
    k, ax = a.f.rows
    return Arr(sh, dt=a.dt, bufs=a.bufs, lo=a.lo, hi=a.hi, f=F(a.f.unit, (k, frozenset(x + off for x in ax)), a.f.deps | r[1], a.f.term))


# ================================================================= conversion
def np_array(I, args, kw, node, view=False):
    v = ga(args, kw, 0, "object")
    if v is None:
        v = ga(args, kw, 0, "a")
    dtv = ga(args, kw, 1, "dtype")
    dt = X.dtype_code(dtv) if not isnone(dtv) else None
    ndmin = ival(kw.get("ndmin")) or 0
    if "copy" in kw and truthy(kw["copy"]) is not True:
        view = True
    if isinstance(v, Union):
        return I.over_union(lambda x: np_array(I, [x] + list(args[1:]), kw, node, view), v)
    if isinstance(v, Const) and v.v is None:
        return Arr((), dt="O", f=F(deps=v.f.deps))
    if isinstance(v, (Const, Str)) and not (isinstance(v, Const) and isinstance(v.v, bool)):
        return Arr((), dt="s", f=v.f)
    a = X.as_arr(I, v)
    if a is None:
        # lists of strings and mixed lists
        its = I.exact_items(v)
        if its is not None and all(isinstance(x, (Str, Const)) for x in its):
            return Arr((Poly.const(len(its)),), dt="s", f=F(deps=X.alldeps(its), term=T("stack", *[X.tt(x) for x in its])))
        if isinstance(v, Ref):
            o = I.st.get(v.oid)
            if isinstance(o, ListObj) and isinstance(o.elem, (Str, Const)):
                return Arr((o.len if o.len is not None else X.dyn(),), dt="s", f=F(deps=X.deep_deps(I, v)))
            if isinstance(o, Obj):
                return Arr((), dt="O", f=F(deps=X.deep_deps(I, v)))
        if isinstance(v, TopT):
            return Arr(None, cont="nd", dt=dt or "?", f=v.f.w(term=v.f.term or T("u", uid())))
        if isinstance(v, Opaque):
            return Opaque("array", v.f)
        return X.unknown(I, v)
    if dt in ("f", "i") and a.dt == "s" and not isinstance(v, Arr):
        I.err("ValueError", "could not convert string to float", node)
    same = isinstance(v, Arr) and v.cont in ("nd", "mat") and (dt is None or dt == v.dt)
    keepbufs = view and isinstance(v, Arr) and (same or dt is None or dt == v.dt)
    if view and same and ndmin <= (len(v.shape) if v.shape is not None else 9) and v.cont == "nd":
        return v
    t = X.tt(v) if isinstance(v, (Arr, Num, Const)) else a.f.term
    sh = a.shape
    f = a.f.w(term=t)
    if sh is not None and len(sh) < ndmin:
        k = ndmin - len(sh)
        sh = (ONE,) * k + sh
        f = X.shift_rows(f, k)
    lo, hi = a.lo, a.hi
    d = dt or a.dt
    if dt == "i" and a.dt == "f":
        f = f.w(term=T("trunc", f.term))
        lo = hi = None
    elif dt == "b" and a.dt in ("f", "i"):
        f = f.w(term=T("bool", f.term))
        lo, hi = 0, 1
    return Arr(sh, "nd", d, a.bufs if keepbufs else None, None, lo, hi, f)


def np_asarray(I, args, kw, node):
    return np_array(I, args, kw, node, view=True)


def np_atleast(nd):
    def f(I, args, kw, node):
        a = np_asarray(I, args[:1], {}, node)
        if isinstance(a, Arr) and a.shape is not None and len(a.shape) < nd:
            if nd == 2 and len(a.shape) == 1:
                return a.w(vid=uid(), shape=(ONE,) + a.shape, f=X.shift_rows(a.f, 1).w(term=X.laid(a, (ONE,) + a.shape)))
            return a.w(vid=uid(), shape=(ONE,) * (nd - len(a.shape)) + a.shape, f=X.shift_rows(a.f, nd - len(a.shape)))
        return a
    return f


def deepcopy(I, v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, Arr):
        k = ("a", v.vid)
        if k not in memo:
            nv = uid()
            memo[k] = (nv, frozenset([("new", nv)]))
        nv, b = memo[k]
        return v.w(vid=nv, bufs=b)
    if isinstance(v, Tup):
        return Tup([deepcopy(I, x, memo) for x in v.items])
    if isinstance(v, Union):
        return Union([x if x is UNDEF else deepcopy(I, x, memo) for x in v.opts])
    if isinstance(v, Ref):
        if v.oid in memo:
            return memo[v.oid]
        o = I.st.get(v.oid)
        n = o.copy()
        n.tag = None
        r = I.alloc(n, "cp:%s" % (v.oid[0],))
        memo[v.oid] = r
        if isinstance(n, ListObj):
            if n.items is not None:
                n.items = [deepcopy(I, x, memo) for x in n.items]
            elif n.elem is not None:
                n.elem = deepcopy(I, n.elem, memo)
        elif isinstance(n, DictObj):
            n.d = {k: deepcopy(I, x, memo) for k, x in n.d.items()}
            if n.elem is not None:
                n.elem = deepcopy(I, n.elem, memo)
        else:
            n.attrs = {k: x if x is UNDEF else deepcopy(I, x, memo) for k, x in n.attrs.items()}
        return r
    if isinstance(v, Opaque):
        return Opaque(v.tag, v.f)
    return v


def shallow(I, v, node=None):
    if isinstance(v, Arr):
        nv = uid()
        return v.w(vid=nv, bufs=frozenset([("new", nv)]))
    if isinstance(v, Ref):
        n = I.st.get(v.oid).copy()
        n.tag = None
        return I.alloc(n, "sc:%s" % (v.oid[0],))
    return v


def astype(I, a, dtv, node, copy=True):
    d = X.dtype_code(dtv) or "?"
    if d in ("f", "i") and a.dt == "s":
        pass
    t, lo, hi = a.f.term, a.lo, a.hi
    if d == "i" and a.dt == "f":
        t, lo, hi = T("trunc", X.tt(a)), None, None
    if d == "b":
        t, lo, hi = T("bool", X.tt(a)), 0, 1
    return Arr(a.shape, a.cont, d, None, None, lo, hi, a.f.w(term=t), a.lab)


# ================================================================= shape changing
def np_reshape(I, args, kw, node):
    a = arr_or_err(I, args[0], node, "reshape")
    s = ga(args, kw, 1, "newshape")
    if s is None:
        s = kw.get("shape")
    if a is None:
        return X.unknown(I, *args)
    dims = I.exact_items(s) if not isinstance(s, Num) else [s]
    if dims is None:
        return Arr(None, dt=a.dt, bufs=a.bufs, f=a.f.w(rows=UNKROWS if a.f.rows[0] != "none" else NOROWS))
    o = kw.get("order")
    return X.reshape(I, a, dims, node, order=o.v if isinstance(o, Const) else None)


def flatten(I, a, node, copy=True, order=None):
    r = X.reshape(I, a, [num(-1)], node, order=order, copy=copy)
    return r


def np_transpose(I, args, kw, node):
    a = X.as_arr(I, args[0])
    if a is None:
        return X.unknown(I, *args)
    axv = ga(args, kw, 1, "axes")
    axes = None
    if not isnone(axv):
        its = I.exact_items(axv)
        axes = [ival(x) for x in its] if its and all(ival(x) is not None for x in its) else None
    return X.transpose(I, a, axes)


def _stack(mode):
    def f(I, args, kw, node):
        v = args[0]
        its = I.exact_items(v)
        axv = ga(args, kw, 1, "axis")
        ax = ival(axv) if not isnone(axv) else 0
        if isinstance(v, Arr) and mode == "vstack":
            # iterates over the rows of an array
            if v.shape is not None and len(v.shape) == 1:
                return v.w(vid=uid(), bufs=None or frozenset([("new", uid())]), shape=(v.shape[0], ONE))
            return shallow(I, v)
        if its is None:
            e, _ = I.elem_of(v)
            a = X.as_arr(I, e)
            d = X.deep_deps(I, v)
            if a is None:
                return X.unknown(I, v)
            return Arr(None, dt=a.dt, f=F(a.f.unit, UNKROWS if a.f.rows[0] != "none" else NOROWS, d, T("u", uid())))
        arrs = [X.as_arr(I, x) for x in its]
        if any(a is None or a.shape is None for a in arrs):
            return X.unknown(I, *its)
        if mode == "column_stack":
            arrs = [a.w(shape=a.shape + (ONE,)) if len(a.shape) == 1 else a for a in arrs]
            ax = 1
        elif mode == "vstack":
            arrs = [a.w(shape=(ONE,) + a.shape, f=X.shift_rows(a.f, 1)) if len(a.shape) == 1 else a for a in arrs]
            ax = 0
        elif mode == "hstack":
            ax = 0 if len(arrs[0].shape) == 1 else 1
        elif mode == "stack":
            r = X.stack_items(I, its)
            if ax == 0:
                return r
            if ax in (1, -1) and isinstance(r, Arr) and r.shape is not None and len(r.shape) == 2:
                return X.transpose(I, r)
            return X.unknown(I, *its)
        R = len(arrs[0].shape)
        if ax is None:
            return X.unknown(I, *its)
        if ax < 0:
            ax += R
        tot = ZERO
        f0 = F(ANYUNIT, NOROWS, NODEPS)
        unit, rows, deps = ANYUNIT, NOROWS, NODEPS
        lo = hi = None
        for n, a in enumerate(arrs):
            if len(a.shape) != R:
                I.err("ValueError", "all the input array dimensions except for the concatenation axis must match", node)
            tot = tot + a.shape[ax]
            for q in range(R):
                if q != ax and a.shape[q] != arrs[0].shape[q] and X.generic(a.shape[q]) and X.generic(arrs[0].shape[q]):
                    I.err("ValueError", "all the input array dimensions except for the concatenation axis must match exactly: %s and %s" % (arrs[0].shape, a.shape), node)
            unit = (junit(unit, a.f.unit) if unit is not None and a.f.unit is not None else None)
            rows = jrows(rows, a.f.rows)
            deps = deps | a.f.deps
            lo = a.lo if n == 0 else (min(lo, a.lo) if None not in (lo, a.lo) else None)
            hi = a.hi if n == 0 else (max(hi, a.hi) if None not in (hi, a.hi) else None)
        if ax in rows[1]:
            rows = UNKROWS if len(arrs) > 1 else rows
        sh = arrs[0].shape[:ax] + (tot,) + arrs[0].shape[ax + 1:]
        if len(arrs) == 2 and not X.generic(arrs[0].shape[ax]) :
            pass
        return Arr(sh, dt=arrs[0].dt, lo=lo, hi=hi, f=F(unit, rows, deps, T("cat", ax, *[X.tt(x) for x in its])))
    return f


def np_diag(I, args, kw, node):
    a = X.as_arr(I, args[0])
    if a is None or a.shape is None:
        return X.unknown(I, *args)
    k, ax = a.f.rows
    t = T("diag", X.tt(args[0]))
    if len(a.shape) == 1:
        rows = (k, frozenset([0, 1]) if ax else ax)
        return Arr((a.shape[0], a.shape[0]), dt=a.dt, lo=None if a.lo is None else min(0, a.lo), hi=None if a.hi is None else max(0, a.hi), f=F(a.f.unit, rows, a.f.deps, t))
    rows = (k, frozenset([0]) if ax else ax)
    return Arr((X.minp(I, a.shape[0], a.shape[1]),), dt=a.dt, lo=a.lo, hi=a.hi, bufs=a.bufs, f=F(a.f.unit, rows, a.f.deps, t))


def np_where(I, args, kw, node):
    c = args[0]
    if len(args) == 3:
        a, b = args[1], args[2]
        arrs = [X.as_arr(I, x) for x in args]
        if any(x is None for x in arrs):
            return X.unknown(I, *args)
        u = junit(a.f.unit, b.f.unit) if None not in (a.f.unit, b.f.unit) else None
        for x, y in ((a, b), (b, a)):
            if u is None and isinstance(x, Num) and x.c is not None:
                u = y.f.unit
        (la, ha), (lb, hb) = X.num_iv(a), X.num_iv(b)
        if arrs[0].lo is not None and arrs[0].lo == arrs[0].hi:
            (la, ha), (lb, hb) = ((la, ha),) * 2 if arrs[0].lo else ((lb, hb),) * 2
        lo = min(la, lb) if None not in (la, lb) else None
        hi = max(ha, hb) if None not in (ha, hb) else None
        return X.elementwise(I, node, [c, a, b], "where", unit=u, lo=lo, hi=hi, dt="f" if "f" in (arrs[1].dt, arrs[2].dt) else arrs[1].dt)
    a = X.as_arr(I, c)
    if a is None or a.shape is None:
        e = Arr((X.dyn(),), dt="i", f=F(DIMLESS, UNKROWS if c.f.rows[0] != "none" else NOROWS, X.deep_deps(I, c), T("u", uid())))
        return Tup([e])
    d = X.selected(c)
    if a.lo is not None and a.lo == a.hi:
        d = ZERO if a.lo == 0 else X.size(a)
    # the number of hits never exceeds the number of entries
    if len(a.shape) == 1 or all(x == ONE for x in a.shape[1:]):
        I.st.sym = I.st.sym + (a.shape[0] - d,) if (a.shape[0] - d) not in I.st.sym else I.st.sym
    out = []
    if not hasattr(I, "idxsrc"):
        I.idxsrc = {}
    for q in range(max(1, len(a.shape))):
        k, ax = a.f.rows
        t = T("nzidx", X.tt(c), q)
        if q in ax:
            rows = ("idx", frozenset([0]))
            I.idxsrc[t.id] = k if k in ("pt", "equi") else "ord" if k in ("ord", "idx") else "unk"
            if k == "unk":
                rows = UNKROWS
            if k == "ord":
                rows = ("ord", frozenset([0]))
        elif ax:
            rows = ("ord", frozenset([0])) if k not in ("unk",) else UNKROWS
            if all(x == ONE for i, x in enumerate(a.shape) if i not in ax):
                rows = NOROWS
        else:
            rows = (k, frozenset())
        out.append(Arr((d,), dt="i", lo=0, f=F(DIMLESS, rows, c.f.deps, t)))
    return Tup(out)


def sortlike(op, order=False):
    def f(I, args, kw, node):
        v = args[0]
        a = arr_or_err(I, v, node, op)
        if a is None:
            return X.unknown(I, *args)
        axv = kw.get("axis")
        pos = 2 if op == "partition" else 1
        if axv is None and len(args) > pos:
            axv = args[pos]
        ax = ival(axv) if axv is not None and not isnone(axv) else -1
        deps = X.alldeps(args)
        k, axs = a.f.rows
        if a.shape is None:
            return Arr(None, dt="i" if op == "argsort" else a.dt, lo=a.lo, hi=a.hi, f=F(DIMLESS if op == "argsort" else a.f.unit, UNKROWS if k != "none" else NOROWS, deps, T(op, X.tt(v))))
        ax = norm_axis(I, a, ax, node) if a.shape else 0
        if ax in axs:
            rest = axs - {ax}
            rows = ("equi", rest) if rest else INV
            if k in ("ord", "unk", "idx"):
                rows = ("ord" if k == "idx" else k, rest)
            if op == "argsort":
                rows = ("idx", axs)
        else:
            rows = a.f.rows
            if op == "argsort" and k == "none":
                rows = NOROWS
        t = T(op, X.tt(v), str(ax))
        if op == "argsort" and "idx" == rows[0]:
            if not hasattr(I, "idxsrc"):
                I.idxsrc = {}
            I.idxsrc[t.id] = "ord"
        return Arr(a.shape, "nd" if op == "argsort" else ("nd" if a.cont != "mat" else "mat"), "i" if op == "argsort" else a.dt, lo=0 if op == "argsort" else a.lo, hi=None if op == "argsort" else a.hi, f=F(DIMLESS if op == "argsort" else a.f.unit, rows, deps, t))
    return f


def np_argext(op):
    def f(I, args, kw, node):
        a = X.as_arr(I, args[0])
        if a is None or a.shape is None:
            return X.unknown(I, *args)
        rows = a.f.rows
        ax = ga(args, kw, 1, "axis")
        k, axs = rows
        if isnone(ax):
            r = NOROWS if k == "none" else (("ord", frozenset()) if axs and k != "unk" else (k, frozenset()))
            return Num("int", lo=0, npy=True, f=F(DIMLESS, r, a.f.deps, T(op, X.tt(args[0]))))
        q = norm_axis(I, a, ival(ax) or 0, node)
        sh = a.shape[:q] + a.shape[q + 1:]
        return X.scalar_or_arr(Arr(sh, dt="i", lo=0, f=F(DIMLESS, UNKROWS if k != "none" else NOROWS, a.f.deps, T(op, X.tt(args[0]), q))))
    return f


def np_cum(op):
    def f(I, args, kw, node):
        a = X.as_arr(I, args[0])
        if a is None or a.shape is None:
            return X.unknown(I, *args)
        axv = ga(args, kw, 1, "axis")
        k, axs = a.f.rows
        ax = ival(axv) if not isnone(axv) else None
        if ax is None:
            sh = (X.size(a),)
            rows = ("ord", frozenset([0])) if axs else (k, frozenset())
        else:
            ax = norm_axis(I, a, ax, node)
            sh = a.shape
            rows = ("ord", axs) if ax in axs else a.f.rows
        return Arr(sh, dt=a.dt, lo=0 if a.lo is not None and a.lo >= 0 else None, f=F(a.f.unit if op == "cumsum" else None, rows, a.f.deps, T(op, X.tt(args[0]), str(ax))))
    return f


def np_unique(I, args, kw, node):
    a = X.as_arr(I, args[0])
    if a is None:
        return X.unknown(I, *args)
    k, ax = a.f.rows
    rows = allrows(a.f.rows)
    d = X.dyn(T("uniq", X.tt(args[0])))
    I.st.sym = I.st.sym + ((d - 1,) if (d - 1) not in I.st.sym else ())
    base = Arr((d,), dt=a.dt, lo=a.lo, hi=a.hi, f=F(a.f.unit, rows, a.f.deps, T("unique", X.tt(args[0]))))
    out = [base]
    for k2 in ("return_index", "return_inverse", "return_counts"):
        if truthy(kw.get(k2)):
            out.append(Arr((d,) if k2 != "return_inverse" else (X.size(a) or X.dyn(),), dt="i", lo=0, f=F(DIMLESS, rows if k2 != "return_index" else UNKROWS, a.f.deps, T(k2, X.tt(args[0])))))
    return base if len(out) == 1 else Tup(out)


def _setop(op):
    def f(I, args, kw, node):
        arrs = [X.as_arr(I, x) for x in args[:2]]
        if any(a is None for a in arrs):
            return X.unknown(I, *args)
        deps = X.alldeps(arrs)
        rows = jrows(allrows(arrs[0].f.rows), allrows(arrs[1].f.rows))
        dt = "f" if op == "union1d" and "f" in (arrs[0].dt, arrs[1].dt) else arrs[0].dt
        t = T(op, X.tt(args[0]), X.tt(args[1]))
        d = X.dyn(t)
        if op == "union1d":
            # at least as long as the second operand, which has no duplicates when it is an index set
            pass
        return Arr((d,), dt=dt, lo=0 if all(a.lo is not None and a.lo >= 0 for a in arrs) else None, f=F(junit(arrs[0].f.unit, arrs[1].f.unit), rows, deps, t))
    return f


def np_cov(I, args, kw, node):
    a = X.as_arr(I, args[0])
    y = ga(args, kw, 1, "y")
    rv = ga(args, kw, 2, "rowvar")
    if a is None or a.shape is None:
        return X.unknown(I, *args)
    rowvar = truthy(rv, True)
    if rowvar is None:
        return X.unknown(I, *args)
    deps = X.alldeps(list(args) + list(kw.values()))
    sh = a.shape if len(a.shape) == 2 else (ONE,) + a.shape
    k, ax = a.f.rows
    if len(a.shape) == 1:
        ax = frozenset(x + 1 for x in ax)
        rowvar = True
    va, oa = (0, 1) if rowvar else (1, 0)
    q = sh[va]
    u = upow(a.f.unit, 2) if a.f.unit is not None else None
    rows = INV if oa in ax and k in ("pt", "equi") else ((k, frozenset()) if k in ("none", "inv", "ord", "unk") else ("equi", frozenset([0, 1])))
    if not isnone(y):
        b = X.as_arr(I, y)
        if b is None or b.shape is None:
            return X.unknown(I, *args)
        bs = b.shape if len(b.shape) == 2 else ((ONE,) + b.shape if rowvar else b.shape + (ONE,))
        if len(b.shape) == 2 and bs[oa] != sh[oa] and X.generic(bs[oa]) and X.generic(sh[oa]):
            I.err("ValueError", "all the input array dimensions except for the concatenation axis must match", node)
        q = q + bs[va]
        u = u if b.f.unit == a.f.unit else None
        if b.f.rows[0] in ("ord", "unk"):
            rows = (b.f.rows[0], frozenset())
    t = T("cov", X.tt(args[0]), X.tt(y) if not isnone(y) else "n", "rv%s" % rowvar)
    shp = (q, q)
    if q == ONE:
        shp = ()
    return X.scalar_or_arr(Arr(shp, dt="f", f=F(u, rows, deps, t)))


# ================================================================= linear algebra
def mat_arg(I, v, node, what):
    a = X.as_arr(I, v)
    if a is not None and a.shape is not None and len(a.shape) != 2:
        if a.shape == () or len(a.shape) == 1:
            I.err("LinAlgError", "%d-dimensional array given. Array must be at least two-dimensional" % len(a.shape), node)
    return a


def np_svd(I, args, kw, node):
    a = mat_arg(I, args[0], node, "svd")
    fm = truthy(ga(args, kw, 1, "full_matrices"), True)
    if a is None or a.shape is None:
        u = X.unknown(I, *args)
        return Tup([u, u, u])
    n, p = a.shape
    k, ax = a.f.rows
    m = X.minp(I, n, p)
    base = X.tt(args[0])
    deps = a.f.deps
    if k in ("ord", "unk"):
        ru = rs = rv = (k, frozenset())
    elif k == "none":
        ru = rs = rv = NOROWS
    else:
        rs = INV
        ru = ("equi", frozenset([0])) if 0 in ax else INV
        rv = ("equi", frozenset([1])) if 1 in ax else INV
    U = Arr((n, n if fm else m), dt="f", lo=-1, hi=1, f=F(DIMLESS, ru, deps, T("svdU", base)))
    S = Arr((m,), dt="f", lo=0, f=F(a.f.unit, rs, deps, T("svdS", base)))
    V = Arr((p if fm else m, p), dt="f", lo=-1, hi=1, f=F(DIMLESS, rv, deps, T("svdV", base)))
    return Tup([U, S, V])


def np_inv(op, square=True):
    def f(I, args, kw, node):
        a = X.as_arr(I, args[0])
        if a is None or a.shape is None:
            return X.unknown(I, *args)
        if len(a.shape) != 2:
            if op in ("inv",) and len(a.shape) < 2:
                I.err("LinAlgError", "array must be at least two-dimensional", node)
            if op == "pinv" and len(a.shape) < 2:
                I.err("ValueError", "expected square matrix / 2-D array", node)
            return X.unknown(I, *args)
        if square and a.shape[0] != a.shape[1] and X.generic(a.shape[0]) and X.generic(a.shape[1]):
            I.err("LinAlgError", "Last 2 dimensions of the array must be square: %s" % (a.shape,), node)
        k, ax = a.f.rows
        rows = (k, frozenset(1 - x for x in ax)) if not square else a.f.rows
        if k == "pt":
            rows = ("equi", rows[1])
        u = upow(a.f.unit, -1) if a.f.unit is not None and a.f.unit != ANYUNIT else a.f.unit
        sh = a.shape if square else a.shape[::-1]
        return Arr(sh, dt="f", f=F(u, rows, a.f.deps, T(op, X.tt(args[0]))))
    return f


def sqrtm(I, args, kw, node):
    a = X.as_arr(I, args[0])
    if a is None or a.shape is None:
        return X.unknown(I, *args)
    if len(a.shape) != 2:
        I.err("ValueError", "Non-matrix input to matrix function.", node)
    u = upow(a.f.unit, HALF) if a.f.unit is not None else None
    return Arr(a.shape, dt="f", f=F(u, a.f.rows, a.f.deps, T("sqrtm", X.tt(args[0]))))


def np_eigh(I, args, kw, node):
    a = mat_arg(I, args[0], node, "eigh")
    if a is None or a.shape is None:
        u = X.unknown(I, *args)
        return Tup([u, u])
    if a.shape[0] != a.shape[1] and X.generic(a.shape[0]) and X.generic(a.shape[1]):
        I.err("LinAlgError", "Last 2 dimensions of the array must be square", node)
    rows = a.f.rows if a.f.rows[0] in ("none", "ord", "unk") else INV
    return Tup([Arr(a.shape[:1], dt="f", f=F(a.f.unit, rows, a.f.deps, T("eigval", X.tt(args[0])))),
                Arr(a.shape, dt="f", lo=-1, hi=1, f=F(DIMLESS, rows, a.f.deps, T("eigvec", X.tt(args[0]))))])


def orth(I, args, kw, node):
    a = X.as_arr(I, args[0])
    if a is None or a.shape is None or len(a.shape) != 2:
        return X.unknown(I, *args)
    return Arr((a.shape[0], X.dyn(T("rank", X.tt(args[0])))), dt="f", lo=-1, hi=1, f=F(DIMLESS, a.f.rows, a.f.deps, T("orth", X.tt(args[0]))))


def np_lstsq(I, args, kw, node):
    a, b = X.as_arr(I, args[0]), X.as_arr(I, args[1])
    if a is None or b is None or a.shape is None or b.shape is None:
        u = X.unknown(I, *args)
        return Tup([u, u, u, u])
    if len(a.shape) != 2:
        I.err("LinAlgError", "%d-dimensional array given. Array must be two-dimensional" % len(a.shape), node)
    if a.shape[0] != b.shape[0] and X.generic(a.shape[0]) and X.generic(b.shape[0]):
        I.err("LinAlgError", "Incompatible dimensions", node)
    deps = a.f.deps | b.f.deps
    ks = {a.f.rows[0], b.f.rows[0]}
    rows = NOROWS if ks == {"none"} else ("ord", frozenset()) if "ord" in ks else UNKROWS if "unk" in ks else INV
    u = umul(b.f.unit, a.f.unit, -1)
    sol = Arr((a.shape[1],) + b.shape[1:], dt="f", f=F(u, rows, deps, T("lstsq", X.tt(args[0]), X.tt(args[1]))))
    x = TopT(F(None, rows, deps))
    return Tup([sol, x, x, x])


def np_solve(I, args, kw, node):
    i = FN["numpy.linalg.inv"](I, args[:1], {}, node)
    return X.matmul(I, i, args[1], node)


def np_norm(I, args, kw, node):
    o = ga(args, kw, 1, "ord")
    ax = ga(args, kw, 2, "axis")
    kd = kw.get("keepdims")
    a = X.as_arr(I, args[0])
    if a is not None and a.shape is not None and isnone(ax) and isinstance(o, Const) and isinstance(o.v, str) and len(a.shape) != 2:
        I.err("ValueError", "Invalid norm order '%s' for vectors" % o.v, node)
    nk = {}
    if not isnone(ax):
        nk["axis"] = ax
    if kd is not None:
        nk["keepdims"] = kd
    r = reduction("norm", iv=iv_nn, dt="f")(I, [args[0]], nk, node)
    return r


def np_dot(I, args, kw, node):
    return X.matmul(I, args[0], args[1], node, op="dot")


def np_matmul(I, args, kw, node):
    return X.matmul(I, args[0], args[1], node)


def np_outer(I, args, kw, node):
    a, b = X.as_arr(I, args[0]), X.as_arr(I, args[1])
    if a is None or b is None or a.shape is None or b.shape is None:
        return X.unknown(I, *args)
    fa, fb = flatten(I, a, node), flatten(I, b, node)
    r = X.elementwise(I, node, [fa.w(shape=fa.shape + (ONE,)), fb.w(shape=(ONE,) + fb.shape, f=X.shift_rows(fb.f, 1))], "mul", unit=umul(a.f.unit, b.f.unit))
    return r


def np_triu(I, args, kw, node):
    a = X.as_arr(I, args[0])
    if a is None:
        return X.unknown(I, *args)
    return Arr(a.shape, dt=a.dt, lo=None if a.lo is None else min(0, a.lo), hi=None if a.hi is None else max(0, a.hi), f=F(a.f.unit, ("ord", a.f.rows[1]) if a.f.rows[1] else a.f.rows, a.f.deps, T("triu", X.tt(args[0]))))


def np_fill_diag(I, args, kw, node):
    a = args[0]
    if isinstance(a, Arr):
        X.write(I, a, a.w(f=a.f.w(deps=a.f.deps | args[1].f.deps, term=T("u", uid())), lo=None, hi=None), node)
    return NONE


def np_apply_along(I, args, kw, node):
    fn, axv, a = args[0], args[1], args[2]
    ax = ival(axv)
    arr = X.as_arr(I, a)
    if arr is None or arr.shape is None or ax is None:
        I.call(fn, [X.unknown(I, a)] + list(args[3:]), kw, node)
        return X.unknown(I, a)
    ax = norm_axis(I, arr, ax, node)
    if len(arr.shape) == 1:
        return np_asarray(I, [I.call(fn, [arr] + list(args[3:]), kw, node)], {}, node)
    other = 1 - ax
    k, axs = arr.f.rows
    # one slice: the remaining axis
    keeps = ax in axs
    sl_rows = (k, frozenset([0])) if keeps else (k, frozenset())
    if k == "pt" and other in axs:
        # each slice is one case; the result per case is pointwise
        sl_rows = NOROWS
    sl = Arr((arr.shape[ax],), dt=arr.dt, lo=arr.lo, hi=arr.hi, f=F(arr.f.unit, sl_rows, arr.f.deps, T("rowof", X.tt(a), ax)))
    r = I.call(fn, [sl] + list(args[3:]), kw, node)
    ra = X.as_arr(I, r)
    if ra is None or ra.shape is None:
        return X.unknown(I, a, r)
    sh = arr.shape[:ax] + ra.shape + arr.shape[ax + 1:]
    if other in axs:
        rk = ra.f.rows[0]
        kk = k if rk == "none" else jrows((k, frozenset()), (rk, frozenset()))[0]
        pos = 0 if ax == 1 else len(ra.shape)
        rows = (kk, frozenset([pos]))
    elif keeps:
        rows = allrows(arr.f.rows) if not ra.shape else ra.f.rows
    else:
        rows = (ra.f.rows[0], frozenset())
    return X.scalar_or_arr(Arr(sh, dt="f", lo=ra.lo, hi=ra.hi, f=F(ra.f.unit, rows, arr.f.deps | r.f.deps, T("along", X.tt(r), ax))))


def np_isnan(I, args, kw, node):
    v = args[0]
    if isinstance(v, Const) and not isinstance(v.v, bool):
        I.err("TypeError", "ufunc 'isnan' not supported for the input types", node)
    if isinstance(v, Arr) and v.dt == "O" and v.cont == "nd":
        I.err("TypeError", "ufunc 'isnan' not supported for the input types", node)
    lo, hi = 0, 1
    if "nan" not in v.f.deps and getattr(I, "nonan", False):
        hi = 0
    return X.elementwise(I, node, [v], "isnan", unit=DIMLESS, dt="b", lo=lo, hi=hi, npy=True)


def np_size(I, args, kw, node):
    a = X.as_arr(I, args[0])
    ax = ga(args, kw, 1, "axis")
    if a is None or a.shape is None:
        return Num("int", lo=0, f=F(DIMLESS, deps=args[0].f.deps))
    if isnone(ax):
        return X.intnum(X.size(a), a.f.deps, I)
    return X.intnum(a.shape[norm_axis(I, a, ival(ax) or 0, node)], a.f.deps, I)


def np_shape(I, args, kw, node):
    a = X.as_arr(I, args[0])
    if a is None or a.shape is None:
        return TopT(F(deps=args[0].f.deps))
    return Tup([X.intnum(d, NODEPS, I) for d in a.shape])


def np_ndim(I, args, kw, node):
    a = X.as_arr(I, args[0])
    if a is None or a.shape is None:
        return Num("int", lo=0, f=F(DIMLESS, deps=args[0].f.deps))
    return num(len(a.shape))


def np_isscalar(I, args, kw, node):
    v = args[0]
    if isinstance(v, Num) or isinstance(v, Str) or isinstance(v, Const) and v.v is not None:
        return X.boolv(True)
    if isinstance(v, (TopT, Opaque, Union)):
        return X.unkbool(v)
    return X.boolv(False)


def np_random(name):
    def f(I, args, kw, node):
        deps = X.alldeps(list(args) + list(kw.values())) | {"rng"}
        sz = kw.get("size")
        if sz is None and name == "randint" and len(args) >= 3:
            sz = args[2]
        elif sz is None and name in ("normal", "uniform") and len(args) >= 3:
            sz = args[2]
        elif sz is None and name in ("rand", "randn") and args:
            sz = Tup(args)
        elif sz is None and name in ("choice",) and len(args) > 1:
            sz = args[1]
        elif sz is None and name in ("random", "permutation") and args:
            sz = args[0]
        I.emit("rng", node, name=name)
        if name in ("default_rng", "RandomState"):
            seeded = bool(args) and not isnone(args[0]) or ("seed" in kw and not isnone(kw["seed"]))
            return I.new_ext("rng", {}, F(deps=NODEPS if seeded else frozenset({"rng"})), node)
        if name in ("seed", "shuffle", "set_state"):
            if name == "shuffle" and args and isinstance(args[0], Arr):
                X.write(I, args[0], args[0].w(f=args[0].f.w(deps=deps)), node)
            return NONE
        if isnone(sz):
            return Num("int" if name == "randint" else "float", npy=True, f=F(DIMLESS, NOROWS, deps, T("u", uid())))
        if isinstance(sz, Arr):
            return Arr(sz.shape, dt=sz.dt, f=F(sz.f.unit, UNKROWS, deps, T("u", uid())))
        r = shape_polys(I, sz, node)
        return Arr(tuple(r[0]) if r else None, dt="i" if name in ("randint", "permutation") else "f", f=F(DIMLESS, UNKROWS if r and any(I.is_case(d) for d in r[0]) else NOROWS, deps, T("u", uid())))
    return f


# ================================================================= scipy, statsmodels, dcor
def trim_mean(I, args, kw, node):
    v = ga(args, kw, 0, "a")
    cut = ga(args, kw, 1, "proportiontocut")
    ax = ga(args, kw, 2, "axis", num(0))
    a = X.as_arr(I, v)
    nk = {} if isnone(ax) else {"axis": ax}
    if isinstance(cut, Num) and cut.c is not None and cut.c >= 0.5:
        I.err("ValueError", "Proportion too big.", node)
    r = reduction("trim_mean" if not (isinstance(cut, Num) and cut.c == 0) else "mean", iv=iv_keep, dt="f", scont=False)(I, [v], nk, node)
    if isinstance(cut, Num) and cut.c != 0 and isinstance(r, (Arr, Num)):
        r = r.w(f=r.f.w(deps=r.f.deps | cut.f.deps, term=T("trim", X.tt(r), X.tt(cut))))
    if isinstance(r, Arr) and r.cont == "series":
        r = r.w(cont="nd")
    return r


def sm_mad(I, args, kw, node):
    ax = ga(args, kw, 2, "axis", num(0))
    a = X.as_arr(I, args[0])
    r = reduction("smmad", iv=iv_nn, dt="f")(I, [args[0]], {"axis": ax}, node)
    return r


def _chi2ppf(p, k):
    # Wilson-Hilferty start and Newton on the regularised gamma function
    if p <= 0:
        return 0.0
    if p >= 1:
        return math.inf
    z = NormalDist().inv_cdf(p)
    return max(0.0, k * (1 - 2 / (9 * k) + z * math.sqrt(2 / (9 * k))) ** 3)


def dist_ppf(name):
    def f(I, args, kw, node):
        q = ga(args, kw, 0, "q")
        df = ga(args, kw, 1, "df")
        deps = X.alldeps(list(args) + list(kw.values()))
        rows = NOROWS
        for x in list(args) + list(kw.values()):
            rows = jrows(rows, allrows(x.f.rows))
        lo = 0 if name == "chi2" else None
        hi = None
        t = T("ppf_" + name, *[X.tt(x) for x in list(args) + list(kw.values())])
        if isinstance(q, Num) and q.c is not None:
            if q.c < 0 or q.c > 1:
                return Num("float", npy=True, f=F(DIMLESS, rows, deps | {"nan"}, t))
            if name == "norm":
                v = math.inf if q.c == 1 else -math.inf if q.c == 0 else NormalDist().inv_cdf(q.c)
                return Num("float", c=v, npy=True, f=F(DIMLESS, rows, deps, t))
            if name == "chi2" and isinstance(df, Num) and df.c is not None and df.c > 0:
                return Num("float", lo=0, npy=True, f=F(DIMLESS, rows, deps, t))
        if name == "norm" and isinstance(q, Num) and q.lo is not None and q.lo >= 0.5:
            lo = 0
        return Num("float", lo=lo, hi=hi, npy=True, f=F(DIMLESS, rows, deps, t))
    return f


def dist_cdf(op):
    def f(I, args, kw, node):
        return X.elementwise(I, node, [args[0]], op, unit=DIMLESS, dt="f", lo=0, hi=1, npy=True)
    return f


def pdist(I, args, kw, node):
    a = X.as_arr(I, args[0])
    if a is None or a.shape is None:
        return X.unknown(I, *args)
    if len(a.shape) != 2:
        I.err("ValueError", "A 2-dimensional array must be passed.", node)
    k, ax = a.f.rows
    n = a.shape[0]
    met = ga(args, kw, 1, "metric")
    mt = X.tt(met) if met is not None else T("c", repr("euclidean"))
    t = T("pdist", X.tt(args[0]), mt)
    u = a.f.unit
    if met is not None and isinstance(met, Const) and met.v in ("sqeuclidean",):
        u = upow(u, 2) if u is not None else None
    elif met is not None and isinstance(met, Const) and met.v in ("cosine", "correlation"):
        u = DIMLESS
    elif met is not None and not (isinstance(met, Const) and met.v in ("euclidean", "cityblock", "chebyshev", "minkowski")):
        u = None
    return Arr((n * (n - 1) * HALF,), dt="f", lo=0, f=F(u, ("equi" if k in ("pt", "equi") else k, frozenset()) if k != "none" else NOROWS, a.f.deps | X.alldeps(args), t))


def squareform(I, args, kw, node):
    a = X.as_arr(I, args[0])
    if a is None or a.shape is None:
        return X.unknown(I, *args)
    k = a.f.rows[0]
    if len(a.shape) == 2:
        return Arr((X.dyn(),), dt="f", lo=a.lo, f=F(a.f.unit, ("equi" if k in ("pt", "equi") else k, frozenset()), a.f.deps, T("squareform", X.tt(args[0]))))
    # n(n-1)/2 -> n
    n = isqrt_tri(a.shape[0])
    if n is None:
        n = X.dyn()
    rows = (k, frozenset([0, 1])) if k in ("equi",) else a.f.rows
    return Arr((n, n), dt="f", lo=a.lo, f=F(a.f.unit, rows, a.f.deps, T("squareform", X.tt(args[0]))))


def isqrt_tri(p):
    """n with n(n-1)/2 == p, for p built from a linear polynomial"""
    # 8p+1 = (2n-1)^2 ; find the linear square root
    q = p * 8 + 1
    lin = {}
    for k, v in q.t.items():
        if len(k) == 1 and k[0][1] == 2:
            r = math.isqrt(int(v)) if v.denominator == 1 and v >= 0 else None
            if r is None or r * r != v:
                return None
            lin[k[0][0]] = r
    cst = q.t.get((), Fraction(0))
    c = math.isqrt(int(cst)) if cst.denominator == 1 and cst >= 0 else None
    if c is None or c * c != cst:
        return None
    for sgn in (1, -1):
        root = Poly.const(c * sgn)
        for s, r in lin.items():
            root = root + Poly.sym(s) * r
        if root * root == q:
            return (root + 1).divconst(2)
    return None


def cdist(I, args, kw, node):
    a, b = X.as_arr(I, args[0]), X.as_arr(I, args[1])
    if a is None or b is None or a.shape is None or b.shape is None:
        return X.unknown(I, *args)
    ka, kb = a.f.rows[0], b.f.rows[0]
    ax = (frozenset([0]) if 0 in a.f.rows[1] else frozenset()) | (frozenset([1]) if 0 in b.f.rows[1] else frozenset())
    rows = jrows((ka, ax), (kb, ax))
    return Arr((a.shape[0], b.shape[0]), dt="f", lo=0, f=F(junit(a.f.unit, b.f.unit), rows, a.f.deps | b.f.deps, T("cdist", X.tt(args[0]), X.tt(args[1]))))


def dcor_fn(name):
    def f(I, args, kw, node):
        a, b = X.as_arr(I, args[0]), X.as_arr(I, args[1])
        if a is None or b is None:
            return X.unknown(I, *args)
        if a.shape and b.shape and a.shape[0] != b.shape[0] and X.generic(a.shape[0]) and X.generic(b.shape[0]):
            I.err("ValueError", "dcor: number of rows differs", node)
        ks = {a.f.rows[0], b.f.rows[0]}
        rows = NOROWS if ks == {"none"} else ("ord", frozenset()) if "ord" in ks else UNKROWS if "unk" in ks else INV
        u = umul(a.f.unit, b.f.unit)
        if "corr" in name:
            u = DIMLESS if u is not None else None
        elif not name.endswith("sqr"):
            u = upow(u, HALF) if u is not None else None
        return Num("float", npy=True, lo=None if name.startswith("u_") else 0, f=F(u, rows, a.f.deps | b.f.deps, T("dcor." + name, X.tt(args[0]), X.tt(args[1]))))
    return f


def run_objective(I, fun, x0, extra, node, jac=None):
    """evaluate the objective abstractly once so that its effects are seen"""
    v = I.call(fun, [x0] + extra, {}, node)
    return v


def ipopt_standin(I, loc, node):
    """the bundled wrapper drives an external solver (cyipopt): same contract as scipy's minimize"""
    kw = {k: v for k, v in loc.items() if k in ("args", "jac", "constraints", "options", "tol", "bounds")}
    return minimize(I, [loc["fun"], loc["x0"]], kw, node)


SOLVERS = {"nelder-mead", "powell", "cg", "bfgs", "newton-cg", "l-bfgs-b", "tnc", "cobyla", "cobyqa", "slsqp", "trust-constr", "dogleg", "trust-ncg", "trust-krylov", "trust-exact"}


def minimize(I, args, kw, node, kind="minimize"):
    fun = ga(args, kw, 0, "fun") if kind != "de" else ga(args, kw, 0, "func")
    x0 = ga(args, kw, 1, "x0") if kind != "de" else kw.get("x0")
    me = kw.get("method")
    if kind == "minimize" and isinstance(me, Const) and isinstance(me.v, str) and me.v.lower() not in SOLVERS:
        I.err("ValueError", "Unknown solver %s" % me.v, node)
    ex = kw.get("args")
    if ex is None and kind == "minimize" and len(args) > 2:
        ex = args[2]
    its = I.exact_items(ex) if ex is not None and isinstance(ex, (Tup, Ref)) else ([ex] if ex is not None else [])
    if its is None:
        its = [X.unknown(I, ex)]
    a = X.as_arr(I, x0) if x0 is not None else None
    deps = NODEPS
    rows = NOROWS
    if a is not None and a.shape is not None:
        xv = Arr((X.size(a),), dt="f", f=F(a.f.unit, a.f.rows if not a.f.rows[1] else (a.f.rows[0], a.f.rows[1]), a.f.deps, T("u", uid())))
    else:
        xv = TopT(F(None, x0.f.rows if x0 is not None else NOROWS, x0.f.deps if x0 is not None else NODEPS))
    if kind == "de":
        xv = xv.w(f=xv.f.w(deps=xv.f.deps | {"rng"})) if isinstance(xv, Arr) else xv
    probe = xv
    val = run_objective(I, fun, probe, its, node)
    va = X.as_arr(I, val)
    if va is not None and va.shape is not None and X.size(va) != ONE and X.generic(X.size(va)):
        I.err("ValueError", "The user-provided objective function must return a scalar value.", node)
    if isinstance(val, Const) and val.v is None:
        I.err("TypeError", "objective returns None", node)
    jac = kw.get("jac")
    if isinstance(jac, (Func,)):
        j = I.call(jac, [probe] + its, {}, node)
        val2 = j
        deps = deps | X.deep_deps(I, j)
        rows = jrows(rows, allrows(j.f.rows))
    cons = kw.get("constraints")
    if cons is not None:
        cl = I.exact_items(cons) if not (isinstance(cons, Ref) and isinstance(I.st.get(cons.oid), DictObj)) else [cons]
        for c in cl or [x for x in (I.st.get(cons.oid).values() if isinstance(cons, Ref) else [])]:
            if isinstance(c, Ref):
                o = I.st.get(c.oid)
                if isinstance(o, DictObj):
                    cf = o.d.get("fun")
                    ca = o.d.get("args")
                    cargs = I.exact_items(ca) if ca is not None else []
                    if cf is not None:
                        I.call(cf, [probe] + (cargs or []), {}, node)
                elif isinstance(o, ExtObj) and o.kind == "NonlinearConstraint":
                    cf = o.attrs.get("fun")
                    if isinstance(cf, Func):
                        I.call(cf, [probe], {}, node)
    deps = deps | X.deep_deps(I, val) | xv.f.deps
    for x in its:
        deps = deps | X.deep_deps(I, x)
    for x in kw.values():
        deps = deps | X.deep_deps(I, x)
    vr = allrows(val.f.rows)
    r0 = xv.f.rows
    if isinstance(xv, Arr) and xv.f.rows[1]:
        rr = ("unk", frozenset())
    else:
        rr = jrows(jrows(rows, vr), r0)
    if r0[0] == "ord":
        rr = ("ord", frozenset())
    out = xv.w(vid=uid(), bufs=frozenset([("new", uid())]), lo=None, hi=None, f=F(None, rr, deps, T("argmin", uid()))) if isinstance(xv, Arr) else TopT(F(None, rr, deps))
    # f(x; data) with a known unit in x and a known unit of f scales as a whole, so does its minimiser
    if isinstance(out, Arr):
        out = out.w(f=out.f.w(unit=xv.f.unit if val.f.unit is not None else None))
    return I.new_ext("OptimizeResult", {"x": out, "fun": Num("float", npy=True, f=F(val.f.unit, rr if rr[0] != "none" else NOROWS, deps, T("u", uid()))), "success": Num("bool", f=F(deps=deps)), "nit": Num("int", f=F(deps=deps)), "message": Str()}, F(deps=deps), node)


def sm_ols(I, args, kw, node):
    y, x = ga(args, kw, 0, "endog"), ga(args, kw, 1, "exog")
    a, b = X.as_arr(I, y), X.as_arr(I, x)
    if isinstance(y, Const) and y.v is None:
        I.err("ValueError", "endog is required", node)
    if a is not None and b is not None and a.shape and b.shape and a.shape[0] != b.shape[0] and X.generic(a.shape[0]) and X.generic(b.shape[0]):
        I.err("ValueError", "The indices for endog and exog are not aligned", node)
    return I.new_ext("smodel", {"_y": y, "_x": x}, F(deps=y.f.deps | x.f.deps), node)


def sm_add_constant(I, args, kw, node):
    a = X.as_arr(I, args[0])
    if a is None or a.shape is None:
        return X.unknown(I, *args)
    hc = ga(args, kw, 2, "has_constant")
    sh = a.shape if len(a.shape) == 2 else a.shape + (ONE,)
    q = sh[1] + 1
    k, ax = a.f.rows
    # with the default has_constant='skip' a constant column suppresses the intercept (single new case)
    skip = hc is None or isinstance(hc, Const) and hc.v == "skip"
    if skip and sh[0] == ONE:
        q = sh[1]
    rows = a.f.rows
    if skip and k == "pt" and sh[0] != ONE:     # whether a column is constant is a matter of all cases
        rows = ("equi", ax)
    return Arr((sh[0], q), a.cont, dt="f", f=F(a.f.unit, rows, a.f.deps, T("addconst", X.tt(args[0]))), lab=a.lab)


def ext_regfit(I, o, args, kw, node):
    y, x = o.attrs["_y"], o.attrs["_x"]
    a, b = X.as_arr(I, y), X.as_arr(I, x)
    deps = y.f.deps | x.f.deps | X.alldeps(list(args) + list(kw.values()))
    ks = {y.f.rows[0], x.f.rows[0]}
    rows = NOROWS if ks == {"none"} else ("ord", frozenset()) if "ord" in ks else UNKROWS if "unk" in ks else INV
    q = b.shape[1] if b is not None and b.shape is not None and len(b.shape) == 2 else ONE if b is not None and b.shape is not None else None
    u = umul(y.f.unit, x.f.unit, -1)
    par = Arr((q,) if q is not None else None, dt="f", f=F(u, rows, deps, T("smparams", X.tt(y), X.tt(x), *[X.tt(v) for v in kw.values()])))
    return I.new_ext("smresult", {"params": par, "_y": y, "_x": x}, F(deps=deps), node)


# ================================================================= sklearn
def check_is_fitted(I, args, kw, node):
    o = args[0]
    at = ga(args, kw, 1, "attributes")
    names = []
    if at is not None:
        its = I.exact_items(at) if not (isinstance(at, Const) and isinstance(at.v, str)) else [at]
        names = [x.v for x in its or [] if isinstance(x, Const)]
    if isinstance(o, Ref):
        ob = I.st.get(o.oid)
        if isinstance(ob, Obj):
            if not names:
                names = None
                if not any(k.endswith("_") and not k.startswith("__") for k, v in ob.attrs.items() if v is not UNDEF):
                    I.err("NotFittedError", "not fitted", node, kind="explicit")
            for nme in names or []:
                if ob.attrs.get(nme, UNDEF) is UNDEF:
                    I.err("NotFittedError", "not fitted", node, kind="explicit")
    return NONE


def r2_like(I, args, kw, node):
    deps = X.alldeps(list(args) + list(kw.values()))
    ks = {v.f.rows[0] for v in args}
    rows = NOROWS if ks == {"none"} else ("ord", frozenset()) if "ord" in ks else UNKROWS if "unk" in ks else INV
    a, b = X.as_arr(I, args[0]), X.as_arr(I, args[1])
    if a is not None and b is not None and a.shape and b.shape and a.shape[0] != b.shape[0] and X.generic(a.shape[0]) and X.generic(b.shape[0]):
        I.err("ValueError", "Found input variables with inconsistent numbers of samples", node)
    return Num("float", f=F(DIMLESS, rows, deps, T("u", uid())))


def reg_score(I, self_, args, kw, node):
    Xv, y = args[0], args[1]
    yp = I.call(I.get_attr(self_, "predict", node), [Xv], {}, node)
    sw = kw.get("sample_weight")
    return r2_like(I, [y, yp] + ([sw] if sw is not None else []), {}, node)


def init_params(I, cls):
    init = I.lookup_cls(cls, "__init__")
    if not isinstance(init, Func):
        return []
    a = init.node.args
    return [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]


def est_get_params(I, ref, node):
    o = I.st.get(ref.oid)
    d = {}
    for nme in sorted(init_params(I, o.cls)):
        v = I.get_attr(ref, nme, node)
        d[nme] = v
    return I.new_dict(d, node=node)


def est_set_params(I, ref, kw, node):
    o = I.st.get(ref.oid)
    valid = init_params(I, o.cls)
    for k, v in kw.items():
        if k in ("**", "*"):
            continue
        if k.partition("__")[0] not in valid:
            raise AbsRaise("ValueError", "Invalid parameter '%s' for estimator %s" % (k, o.cls.name), node, "explicit", I.where(node))
        I.set_attr(ref, k, v, node)
    return ref


def est_bases(I, cls):
    return {b.path.rpartition(".")[2] for b in I.mro(cls) if isinstance(b, Ext)}


def est_attr(I, ref, o, name, node):
    if name == "__class__":
        return o.cls
    if name == "__dict__":
        return I.new_dict({k: v for k, v in o.attrs.items() if v is not UNDEF}, node=node)
    bases = est_bases(I, o.cls)
    if bases & {"BaseEstimator", "_BaseComposition"} and name in ("get_params", "set_params", "_get_param_names", "_set_params", "_get_params", "__repr__", "get_metadata_routing"):
        return Meth(ref, name)
    if "RegressorMixin" in bases and name == "score":
        return Meth(ref, name)
    if "TransformerMixin" in bases and name in ("fit_transform", "set_output"):
        return Meth(ref, name)
    if name in ("__repr__", "__str__", "__eq__", "__init__", "__module__", "__doc__"):
        return Meth(ref, name)
    return None


# ================================================================= builtins
def py_len(I, args, kw, node):
    v = args[0]
    its = I.exact_items(v)
    if its is not None:
        return num(len(its))
    if isinstance(v, Arr):
        if v.shape is None:
            return Num("int", poly=X.dyn(T("len", X.tt(v))), f=F(DIMLESS, NOROWS, v.f.deps, T("len", X.tt(v))))
        if v.shape == ():
            I.err("TypeError", "len() of unsized object", node)
        return X.intnum(v.shape[0], NODEPS, I)
    if isinstance(v, Ref):
        o = I.st.get(v.oid)
        if isinstance(o, ListObj):
            if o.len is not None:
                return X.intnum(o.len, NODEPS, I)
            return Num("int", poly=X.dyn(), lo=0, f=F(DIMLESS, deps=X.deep_deps(I, v)))
        if isinstance(o, DictObj):
            return Num("int", poly=X.dyn(), lo=len([x for x in o.d.values() if not isinstance(x, Union)]), f=F(DIMLESS))
    if isinstance(v, Rng):
        return X.intnum(v.b - v.a, v.f.deps, I)
    if isinstance(v, Seq) and v.len is not None:
        return X.intnum(v.len, NODEPS, I)
    if isinstance(v, (Num,)) or isinstance(v, Const) and not isinstance(v.v, str):
        I.err("TypeError", "object has no len()", node)
    return Num("int", poly=X.dyn(), lo=0, f=F(DIMLESS, deps=v.f.deps))


def py_range(I, args, kw, node):
    ps = []
    for a in args:
        p = X.topoly(a)
        if isinstance(a, Num) and a.ity == "float":
            I.err("TypeError", "'float' object cannot be interpreted as an integer", node)
        if isinstance(a, Const) and not isinstance(a.v, bool):
            I.err("TypeError", "cannot be interpreted as an integer", node)
        if p is None:
            p = X.dyn(X.numterm(a) if isinstance(a, Num) else None)
        ps.append(p)
    d = X.alldeps(args)
    if len(ps) == 1:
        return Rng(ZERO, ps[0], 1, F(DIMLESS, deps=d))
    if len(ps) == 2:
        return Rng(ps[0], ps[1], 1, F(DIMLESS, deps=d))
    k = ps[2].cval()
    return Rng(ps[0], ps[1], int(k) if k is not None else None, F(DIMLESS, deps=d))


def py_round(I, args, kw, node):
    v = args[0]
    nd = ga(args, kw, 1, "ndigits")
    if isinstance(v, Num):
        if nd is None:
            if v.c is not None and v.c == v.c and abs(v.c) < 1e15:
                return num(round(v.c))
            if v.poly is not None and all(x.denominator == 1 for x in v.poly.t.values()):
                return Num("int", poly=v.poly, f=v.f)
            t = T("round", X.numterm(v))
            return Num("int", poly=X.dyn(t), lo=v.lo if v.lo is None else math.floor(v.lo), f=v.f.w(term=t))
        return v.w(c=None, lo=None, hi=None, poly=None, f=v.f.w(term=T("round", X.tt(v))))
    if isinstance(v, Arr):
        return X.elementwise(I, node, [v], "round", unit=v.f.unit)
    if isinstance(v, Const) and not isinstance(v.v, bool):
        I.err("TypeError", "type doesn't define __round__ method", node)
    return X.unknown(I, v)


def py_int(I, args, kw, node):
    if not args:
        return num(0)
    v = args[0]
    if isinstance(v, Num):
        if v.c is not None and v.c == v.c and abs(v.c) < 1e18:
            return Num("int", c=int(v.c), f=v.f.w(term=T("c", repr(int(v.c)))))
        if v.poly is not None and v.ity == "int":
            return v.w(npy=False)
        if v.poly is not None and all(x.denominator == 1 for x in v.poly.t.values()):
            return Num("int", poly=v.poly, f=v.f)
        t = T("int", X.numterm(v))
        lo = None if v.lo is None or v.lo != v.lo or abs(v.lo) > 1e15 else math.floor(v.lo)
        hi = None if v.hi is None or v.hi != v.hi or abs(v.hi) > 1e15 else math.ceil(v.hi)
        d = X.dyn(t)
        if v.lo is not None and v.lo >= 1 and (d - 1) not in I.st.sym:
            I.st.sym = I.st.sym + (d - 1,)
        return Num("int", poly=d, lo=lo, hi=hi, f=v.f.w(term=t))
    if isinstance(v, Const):
        if isinstance(v.v, bool):
            return num(int(v.v))
        if isinstance(v.v, str):
            try:
                return num(int(v.v))
            except ValueError:
                I.err("ValueError", "invalid literal for int()", node)
        I.err("TypeError", "int() argument must be a string or a number", node)
    if isinstance(v, Arr):
        if v.shape is not None and X.size(v) != ONE and X.generic(X.size(v)):
            I.err("TypeError", "only size-1 arrays can be converted to Python scalars", node)
        return Num("int", f=F(v.f.unit, (v.f.rows[0], frozenset()), v.f.deps, T("int", X.tt(v))))
    if isinstance(v, Opaque):
        return Num("int", f=F(None, v.f.rows, v.f.deps, T("int", v.f.term)))
    return Num("int", f=F(None, v.f.rows, v.f.deps, T("u", uid())))


def py_float(I, args, kw, node):
    v = args[0] if args else num(0.0)
    if isinstance(v, Num):
        if v.c is not None:
            return Num("float", c=float(v.c), f=v.f)
        return Num("float", poly=v.poly, lo=v.lo, hi=v.hi, f=v.f)
    if isinstance(v, Const):
        if isinstance(v.v, bool):
            return num(float(v.v))
        if isinstance(v.v, str):
            try:
                return num(float(v.v))
            except ValueError:
                I.err("ValueError", "could not convert string to float", node)
        I.err("TypeError", "float() argument must be a string or a number", node)
    if isinstance(v, Arr):
        if v.shape is not None and X.size(v) != ONE and X.generic(X.size(v)):
            I.err("TypeError", "only size-1 arrays can be converted to Python scalars", node)
        return Num("float", lo=v.lo, hi=v.hi, f=F(v.f.unit, (v.f.rows[0], frozenset()), v.f.deps, v.f.term))
    if isinstance(v, Opaque):
        return Num("float", f=F(None, v.f.rows, v.f.deps, T("float", v.f.term)))
    return Num("float", f=F(None, v.f.rows, v.f.deps, T("u", uid())))


def py_bool(I, args, kw, node):
    if not args:
        return X.boolv(False)
    t = I.truth(args[0])
    if t is not None:
        return X.boolv(t, args[0].f.deps)
    return X.unkbool(args[0], term=args[0].f.term)


def py_str(I, args, kw, node):
    if not args:
        return Const("")
    v = args[0]
    if isinstance(v, Const):
        return Const(str(v.v))
    if isinstance(v, Num) and v.c is not None:
        return Const(str(v.c))
    return Str(F(deps=X.deep_deps(I, v)))


def py_type(I, args, kw, node):
    v = args[0]
    if isinstance(v, Union):
        return I.over_union(lambda x: py_type(I, [x], kw, node), v)
    t = X.type_of(I, v)
    if t is None:
        return TopT(F(deps=v.f.deps))
    return t


_SUP = {"builtins.bool": ("builtins.int",), "numpy.matrix": ("numpy.ndarray",), "numpy.float64": ("builtins.float", "numbers.Number", "numbers.Real", "numpy.floating", "numpy.number", "numpy.generic"),
        "numpy.int64": ("numpy.integer", "numbers.Integral", "numbers.Number", "numpy.number", "numpy.generic"), "builtins.int": ("numbers.Integral", "numbers.Number", "numbers.Real"), "builtins.float": ("numbers.Number", "numbers.Real"),
        "builtins.list": ("collections.abc.Sequence", "collections.abc.Iterable"), "builtins.tuple": ("collections.abc.Sequence", "collections.abc.Iterable"), "builtins.dict": ("collections.abc.Mapping",)}


def isinst(I, v, c):
    """True/False/None"""
    if isinstance(c, (Tup,)) or isinstance(c, Ref):
        its = I.exact_items(c)
        rs = [isinst(I, v, x) for x in its or []]
        if any(r is True for r in rs):
            return True
        return False if rs and all(r is False for r in rs) else None
    if isinstance(v, Union):
        rs = {isinst(I, x, c) for x in v.opts if x is not UNDEF}
        return rs.pop() if len(rs) == 1 else None
    t = X.type_of(I, v)
    if t is None or isinstance(t, Ext) and t.path == "?":
        if isinstance(v, (Func, Meth)) and isinstance(c, Ext) and c.path.startswith(("pandas", "numpy", "builtins.")):
            return False
        return None
    if isinstance(c, Cls):
        if isinstance(t, Cls):
            return any(k is c or isinstance(k, Cls) and k.qual == c.qual for k in I.mro(t))
        return False
    if isinstance(c, Ext):
        if isinstance(t, Cls):
            return any(isinstance(k, Ext) and k.path.rpartition(".")[2] == c.path.rpartition(".")[2] for k in I.mro(t))
        if c.path == "builtins.object":
            return True
        return t.path == c.path or c.path in _SUP.get(t.path, ())
    return None


def py_isinstance(I, args, kw, node):
    r = isinst(I, args[0], args[1])
    if r is None:
        return X.unkbool(args[0])
    return X.boolv(r, args[0].f.deps)


def py_issubclass(I, args, kw, node):
    a, b = args
    if isinstance(a, Cls) and isinstance(b, (Cls, Ext)):
        nm = b.name if isinstance(b, Cls) else b.path.rpartition(".")[2]
        return X.boolv(any((k.name if isinstance(k, Cls) else k.path.rpartition(".")[2]) == nm for k in I.mro(a)))
    return X.unkbool(a, b)


def py_getattr(I, args, kw, node):
    o, n = args[0], args[1]
    I.dispatch(n, node)
    if isinstance(n, Const) and isinstance(n.v, str):
        if isinstance(o, (Meth, Func)) and len(args) > 2 and n.v not in ("__name__",):
            return args[2]
        try:
            return I.get_attr(o, n.v, node)
        except AbsRaise as e:
            if e.exc == "AttributeError" and len(args) > 2:
                return args[2]
            raise
    return X.unknown(I, *args)


def py_setattr(I, args, kw, node):
    o, n, v = args
    if isinstance(n, Const) and isinstance(n.v, str):
        I.set_attr(o, n.v, v, node)
    else:
        I.emit("dynamic-setattr", node)
    return NONE


def py_delattr(I, args, kw, node):
    o, n = args
    if isinstance(n, Const) and isinstance(n.v, str):
        I.del_attr(o, n.v, node)
    else:
        I.emit("dynamic-setattr", node)
    return NONE


def py_vars(I, args, kw, node):
    if args:
        return I.get_attr(args[0], "__dict__", node)
    return X.unknown(I)


def py_hasattr(I, args, kw, node):
    o, n = args
    if isinstance(n, Const):
        if isinstance(o, Ref) and isinstance(I.st.get(o.oid), Obj):
            a = I.st.get(o.oid).attrs.get(n.v)
            if isinstance(a, Union) and UNDEF in a.opts:
                return X.unkbool(a)
            if a is not None and a is not UNDEF:
                if "stale" in a.f.deps or isinstance(a, Ref) and "stale" in X.deep_deps(I, a):
                    return X.unkbool(Opaque("maybe", F(deps=frozenset(["stale"]))))
                return X.boolv(True)
            c = I.lookup_cls(I.st.get(o.oid).cls, n.v)
            return X.boolv(c is not None or est_attr(I, o, I.st.get(o.oid), n.v, node) is not None)
        if isinstance(o, (Num, Const)) and not (isinstance(o, Num) and o.npy):
            return X.boolv(hasattr(o.v if isinstance(o, Const) else (1 if o.ity == "int" else 1.0), n.v))
        if isinstance(o, Arr):
            if n.v in _ARRATTR or n.v in AMETH:
                return X.boolv(not (n.v in ("columns", "iloc", "loc", "to_numpy", "index") and o.cont == "nd"))
            return X.boolv(False)
        if isinstance(o, Ref):
            return X.boolv(n.v not in ("get_params", "shape", "ndim", "columns", "to_numpy", "fit"))
        if isinstance(o, Cls):
            return X.boolv(I.lookup_cls(o, n.v) is not None or n.v in ("get_params", "set_params") and bool(est_bases(I, o) & {"BaseEstimator", "_BaseComposition"}))
        if isinstance(o, (Func, Ext)):
            return X.boolv(n.v in ("__name__", "__call__"))
    return X.unkbool(o)


def py_callable(I, args, kw, node):
    v = args[0]
    if isinstance(v, (Func, Cls, Ext, Meth)):
        return X.boolv(True)
    if isinstance(v, (Const, Num, Str, Arr, Tup)):
        return X.boolv(False)
    if isinstance(v, Ref):
        o = I.st.get(v.oid)
        if isinstance(o, Obj):
            return X.boolv(I.lookup_cls(o.cls, "__call__") is not None)
        return X.boolv(False)
    return X.unkbool(v)


def py_eval(I, args, kw, node):
    v = args[0]
    if isinstance(v, Union):
        return I.over_union(lambda x: py_eval(I, [x], kw, node), v)
    if isinstance(v, Const) and isinstance(v.v, str):
        try:
            e = ast.parse(v.v, mode="eval").body
        except SyntaxError:
            I.err("SyntaxError", "eval of %r" % v.v, node)
        for n in ast.walk(e):
            if not hasattr(n, "lineno"):
                n.lineno, n.col_offset = getattr(node, "lineno", 0), 0
        r = I.eval(e)
        I.dispatch(v, node, r)
        return r
    I.dispatch(v, node)
    I.emit("dynamic-eval", node)
    return X.unknown(I, *args)


def py_zip(I, args, kw, node):
    its = [I.exact_items(a) for a in args]
    if all(i is not None for i in its):
        return Tup([Tup(x) for x in zip(*its)])
    es = [I.elem_of(a)[0] for a in args]
    return Seq(Tup(es), None)


def py_enumerate(I, args, kw, node):
    its = I.exact_items(args[0])
    if its is not None and len(its) <= 40:
        return Tup([Tup([num(i), x]) for i, x in enumerate(its)])
    e, _ = I.elem_of(args[0])
    ln = None
    if isinstance(args[0], Arr) and args[0].shape:
        ln = args[0].shape[0]
    return Seq(Tup([Num("int", lo=0, f=F(DIMLESS)), e]), ln)


def py_map(I, args, kw, node):
    its = I.exact_items(args[1])
    if its is not None and len(args) == 2 and len(its) <= 24:
        return Tup([I.call(args[0], [x], {}, node) for x in its])
    es = [I.elem_of(a)[0] for a in args[1:]]
    r = I.call(args[0], es, {}, node)
    ln = args[1].shape[0] if isinstance(args[1], Arr) and args[1].shape else (args[1].b - args[1].a if isinstance(args[1], Rng) else None)
    return Seq(r, ln)


def py_sorted(I, args, kw, node):
    its = I.exact_items(args[0])
    if its is not None:
        ks = [pykey(x) for x in its]
        if all(isinstance(k, str) for k in ks) or all(isinstance(k, (int, float)) for k in ks):
            if "key" not in kw:
                r = [const_of(k) for k in sorted(ks)]
                return I.new_list(r[::-1] if truthy(kw.get("reverse")) else r, node=node)
        return I.new_list(its, node=node)
    e, _ = I.elem_of(args[0])
    if isinstance(args[0], Arr):
        a = args[0]
        e = X.scalar_or_arr(Arr((), dt=a.dt, lo=a.lo, hi=a.hi, f=F(a.f.unit, allrows(a.f.rows), a.f.deps)))
        return I.new_list(None, e, a.shape[0] if a.shape else None, node=node)
    return I.new_list(None, e, None, node=node)


def py_list(I, args, kw, node):
    if not args:
        return I.new_list([], node=node)
    v = args[0]
    its = I.exact_items(v)
    if its is not None and len(its) <= 40:
        return I.new_list(its, node=node)
    e, _ = I.elem_of(v)
    ln = v.shape[0] if isinstance(v, Arr) and v.shape else v.len if isinstance(v, Seq) else (v.b - v.a if isinstance(v, Rng) and v.step == 1 else None)
    if isinstance(v, Ref):
        o = I.st.get(v.oid)
        ln = o.len if isinstance(o, ListObj) else None
        if isinstance(o, ExtObj) and o.kind == "set":
            e = o.attrs.get("elem", Top())
            e = withdeps(e, frozenset({"setorder"}))
    return I.new_list(None, e, ln, node=node)


def withdeps(v, d):
    if isinstance(v, (Num, Arr)):
        return v.w(f=v.f.w(deps=v.f.deps | d))
    if isinstance(v, Const):
        return Const(v.v, v.f.w(deps=v.f.deps | d))
    if isinstance(v, Str):
        return Str(v.f.w(deps=v.f.deps | d))
    if isinstance(v, TopT):
        return TopT(v.f.w(deps=v.f.deps | d))
    if isinstance(v, Opaque):
        return Opaque(v.tag, v.f.w(deps=v.f.deps | d), v.bufs)
    if isinstance(v, Tup):
        return Tup([withdeps(x, d) for x in v.items])
    return v


def py_tuple(I, args, kw, node):
    if not args:
        return Tup([])
    its = I.exact_items(args[0])
    if its is not None:
        return Tup(its)
    v = args[0]
    e, _ = I.elem_of(v)
    ln = None
    if isinstance(v, Ref) and isinstance(I.st.get(v.oid), ListObj):
        ln = I.st.get(v.oid).len
    return Seq(e, ln)


def py_dict(I, args, kw, node):
    r = I.new_dict({}, node=node)
    if args:
        X.dict_update(I, r, args[0])
    o = I.st.mut(r.oid)
    for k, v in kw.items():
        if k == "**":
            o.open = True
            o.elem = v
        else:
            o.d[k] = v
    return r


def py_set(I, args, kw, node):
    if not args:
        return I.new_ext("set", {"items": Tup([]), "elem": Top()}, F(), node)
    its = I.exact_items(args[0])
    if its is not None:
        e = None
        for x in its:
            e = x if e is None else jval(e, x, Ctx())
        return I.new_ext("set", {"items": Tup(its), "elem": e or Top()}, F(deps=X.alldeps(its)), node)
    e, _ = I.elem_of(args[0])
    return I.new_ext("set", {"elem": e}, F(deps=args[0].f.deps), node)


def py_slice(I, args, kw, node):
    a = list(args)
    if len(a) == 1:
        return Slice(NONE, a[0], NONE)
    return Slice(a[0], a[1], a[2] if len(a) > 2 else NONE)


def py_super(I, args, kw, node):
    fr = I.st.top
    s = fr.loc.get("self")
    return Opaque("super", F()) if s is None else SuperV(s, fr)


class SuperV(Opaque):
    __slots__ = ("self_", "fn")

    def __init__(self, s, fr):
        super().__init__("super")
        self.self_ = s
        self.fn = fr.fn


def py_print(I, args, kw, node):
    I.emit("print", node)
    if "file" in kw:
        I.emit("effect", node, path="print(file=)")
    return NONE


def py_open(I, args, kw, node):
    I.emit("effect", node, path="builtins.open")
    return Opaque("file")


def py_exc(name):
    def f(I, args, kw, node):
        return I.new_ext(name, {"args": Tup(args)}, F(), node)
    return f


def py_iter(I, args, kw, node):
    return args[0]


def py_next(I, args, kw, node):
    its = I.exact_items(args[0])
    if its:
        return its[0]
    e, _ = I.elem_of(args[0])
    return e


def py_reversed(I, args, kw, node):
    its = I.exact_items(args[0])
    if its is not None:
        return Tup(its[::-1])
    if isinstance(args[0], Rng) and args[0].step == 1:
        r = args[0]
        return Rng(r.b - 1, r.a - 1, -1, r.f)
    e, _ = I.elem_of(args[0])
    return Seq(e, None)


def py_pow(I, args, kw, node):
    return I.binop(ast.Pow(), args[0], args[1], node)


def py_divmod(I, args, kw, node):
    return Tup([I.binop(ast.FloorDiv(), args[0], args[1], node), I.binop(ast.Mod(), args[0], args[1], node)])


def py_hash(I, args, kw, node):
    return Num("int", f=F(deps=args[0].f.deps | {"hash"}))


def signature(I, args, kw, node):
    f = args[0]
    if isinstance(f, Func):
        a = f.node.args
        ps = []
        pos = [x.arg for x in a.posonlyargs + a.args]
        if f.self_ is not None:
            pos = pos[1:]
        for nme in pos:
            ps.append((nme, "POSITIONAL_OR_KEYWORD"))
        if a.vararg:
            ps.append((a.vararg.arg, "VAR_POSITIONAL"))
        for x in a.kwonlyargs:
            ps.append((x.arg, "KEYWORD_ONLY"))
        if a.kwarg:
            ps.append((a.kwarg.arg, "VAR_KEYWORD"))
        d = {}
        for i, (nme, kind) in enumerate(ps):
            d[nme] = I.alloc(ExtObj("Parameter", {"name": Const(nme), "kind": Const("K:" + kind), "VAR_KEYWORD": Const("K:VAR_KEYWORD"), "VAR_POSITIONAL": Const("K:VAR_POSITIONAL"),
                                              "POSITIONAL_OR_KEYWORD": Const("K:POSITIONAL_OR_KEYWORD"), "KEYWORD_ONLY": Const("K:KEYWORD_ONLY")}), "P%s:%d" % (nme, i))
        return I.new_ext("Signature", {"parameters": I.new_dict(d, node=node)}, F(), node)
    return X.unknown(I, *args)


def warn(I, args, kw, node):
    I.emit("warn", node)
    return NONE


def defaultdict(I, args, kw, node):
    r = I.new_dict({}, node=node)
    I.st.mut(r.oid).default = args[0] if args else None
    return r


def pd_frame(I, args, kw, node):
    v = ga(args, kw, 0, "data")
    if isinstance(v, Ref):
        o = I.st.get(v.oid)
        if isinstance(o, DictObj):
            return Arr((X.dyn(), Poly.const(len(o.d))), "frame", "?", f=F(deps=X.deep_deps(I, v)))
    a = X.as_arr(I, v) if v is not None else None
    if a is None or a.shape is None:
        return Arr(None, "frame", "?", f=F(deps=X.deep_deps(I, v) if v is not None else NODEPS))
    return Arr(a.shape if len(a.shape) == 2 else a.shape + (ONE,), "frame", a.dt, a.bufs, None, a.lo, a.hi, a.f)


def pd_series(I, args, kw, node):
    v = ga(args, kw, 0, "data")
    a = X.as_arr(I, v) if v is not None else None
    if a is None:
        return Arr(None, "series", "?", f=F(deps=X.deep_deps(I, v) if v is not None else NODEPS))
    return Arr(a.shape, "series", a.dt, a.bufs, None, a.lo, a.hi, a.f)


def np_matrix(I, args, kw, node):
    a = X.as_arr(I, args[0])
    if a is None or a.shape is None:
        return Arr(None, "mat", f=F(deps=args[0].f.deps))
    sh = a.shape if len(a.shape) == 2 else (ONE,) + a.shape
    return Arr(sh, "mat", a.dt, None, None, a.lo, a.hi, a.f if len(a.shape) == 2 else X.shift_rows(a.f, 1))


def np_nan_to_num(I, args, kw, node):
    return X.elementwise(I, node, [args[0]], "nan_to_num", unit=args[0].f.unit)


def np_clip(I, args, kw, node):
    a = args[0]
    lo, hi = ga(args, kw, 1, "a_min"), ga(args, kw, 2, "a_max")
    l = lo.c if isinstance(lo, Num) else None
    h = hi.c if isinstance(hi, Num) else None
    for z in (lo, hi):
        if z is not None and None not in (a.f.unit, z.f.unit) and not (isinstance(z, Const) and z.v is None) and junit(a.f.unit, z.f.unit) is None:
            I.emit("unit-compare", node, units=X.ushow(a.f.unit) + " vs " + X.ushow(z.f.unit))
    al, ah = X.num_iv(a)
    L = l if al is None else (max(l, al) if l is not None else al)
    H = h if ah is None else (min(h, ah) if h is not None else ah)
    return X.elementwise(I, node, [a], "clip", unit=a.f.unit, lo=L, hi=H, term=T("clip", X.tt(a), X.tt(lo) if lo is not None else "n", X.tt(hi) if hi is not None else "n"))


def np_round_arr(I, args, kw, node):
    v = args[0]
    if isinstance(v, Num):
        if v.c is not None:
            return Num("float", c=float(round(v.c)), npy=True, f=v.f)
        if v.poly is not None and all(x.denominator == 1 for x in v.poly.t.values()):
            return Num("float", poly=v.poly, lo=v.lo, npy=True, f=v.f)
    return X.elementwise(I, node, [v], "round", unit=unonhom(v.f.unit), npy=True)


def np_floorceil(op):
    def f(I, args, kw, node):
        v = args[0]
        if isinstance(v, Num):
            if v.c is not None and v.c == v.c and abs(v.c) < 1e15:
                return Num("float", c=float(getattr(math, op)(v.c)), npy=True, f=v.f)
            lo, hi = v.lo, v.hi
            if v.poly is not None and all(x.denominator == 1 for x in v.poly.t.values()):
                return Num("float", poly=v.poly, lo=lo, hi=hi, npy=True, f=v.f)
            fl = lambda x: None if x is None or abs(x) > 1e15 else float(math.floor(x))
            return Num("float", lo=fl(lo), hi=None, npy=True, f=v.f.w(term=T(op, X.numterm(v))))
        return X.elementwise(I, node, [v], op, unit=unonhom(v.f.unit), npy=True)
    return f


def np_allclose(I, args, kw, node):
    return X.unkbool(*args[:2])


def np_array_equal(I, args, kw, node):
    if X.tt(args[0]) is X.tt(args[1]):
        return X.boolv(True)
    return X.unkbool(*args[:2])


def np_average(I, args, kw, node):
    r = FN["numpy.mean"](I, args[:1], {k: v for k, v in kw.items() if k == "axis"}, node)
    w = kw.get("weights")
    if w is not None and isinstance(r, (Num, Arr)):
        r = r.w(f=r.f.w(deps=r.f.deps | w.f.deps, term=T("avg", X.tt(r), X.tt(w)), rows=jrows(r.f.rows, allrows(w.f.rows))))
    return r


def np_percentile(I, args, kw, node):
    ax = ga(args, kw, 2, "axis")
    r = reduction("quantile", iv=iv_keep, dt="f")(I, [args[0]], {} if isnone(ax) else {"axis": ax}, node)
    q = args[1]
    if isinstance(r, (Num, Arr)):
        r = r.w(f=r.f.w(term=T("quantile", X.tt(r), X.tt(q)), deps=r.f.deps | q.f.deps))
    return r


def np_einsum(I, args, kw, node):
    return X.unknown(I, *args)


def np_take(I, args, kw, node):
    a = X.as_arr(I, args[0])
    ax = ga(args, kw, 2, "axis")
    if a is None or a.shape is None or isnone(ax):
        return X.unknown(I, *args)
    k = norm_axis(I, a, ival(ax) or 0, node)
    full = Slice(NONE, NONE, NONE)
    return X.index(I, a, [full] * k + [args[1]], node)


def np_delete(I, args, kw, node):
    a = X.as_arr(I, args[0])
    ax = ga(args, kw, 2, "axis")
    if a is None or a.shape is None or isnone(ax):
        return X.unknown(I, *args)
    k = norm_axis(I, a, ival(ax) or 0, node)
    sh = list(a.shape)
    sh[k] = X.dyn(T("del", X.tt(args[1]), repr(sh[k])))
    rows = a.f.rows if k not in a.f.rows[1] else UNKROWS
    return Arr(tuple(sh), dt=a.dt, lo=a.lo, hi=a.hi, f=F(a.f.unit, rows, a.f.deps | args[1].f.deps, T("delete", X.tt(args[0]), X.tt(args[1]))))


def np_squeeze(I, args, kw, node):
    a = X.as_arr(I, args[0])
    if a is None or a.shape is None:
        return X.unknown(I, *args)
    axv = ga(args, kw, 1, "axis")
    keep = [i for i, d in enumerate(a.shape) if not (d == ONE and (isnone(axv) or ival(axv) % len(a.shape) == i))]
    mp = {i: j for j, i in enumerate(keep)}
    k, ax = a.f.rows
    r = a.w(vid=uid(), shape=tuple(a.shape[i] for i in keep), f=a.f.w(rows=(k, frozenset(mp[x] for x in ax if x in mp))))
    return r


def np_expand(I, args, kw, node):
    a = X.as_arr(I, args[0])
    ax = ival(ga(args, kw, 1, "axis"))
    if a is None or a.shape is None or ax is None:
        return X.unknown(I, *args)
    R = len(a.shape) + 1
    if ax < 0:
        ax += R
    k, axs = a.f.rows
    return a.w(vid=uid(), shape=a.shape[:ax] + (ONE,) + a.shape[ax:], f=a.f.w(term=X.laid(a, a.shape[:ax] + (ONE,) + a.shape[ax:]), rows=(k, frozenset(x if x < ax else x + 1 for x in axs))))


def np_count_nonzero(I, args, kw, node):
    return reduction("sum", unit=lambda u: DIMLESS, dt="i", iv=iv_nn)(I, args, kw, node)


def np_copyto(I, args, kw, node):
    if isinstance(args[0], Arr):
        X.write(I, args[0], args[0].w(f=args[1].f.w(rows=UNKROWS)), node, full=True)
    return NONE


def np_dtype(I, args, kw, node):
    return Opaque("dtype:%s" % (X.dtype_code(args[0]) or "?"))


def timefn(I, args, kw, node):
    return Num("float", f=F(deps=frozenset({"clock"})))


def copyfn(I, args, kw, node):
    v = args[0]
    if isinstance(v, Union):
        return Union([x if x is UNDEF else deepcopy(I, x) for x in v.opts])
    return deepcopy(I, v)


def shallowfn(I, args, kw, node):
    return shallow(I, args[0], node)


def nonlin(I, args, kw, node):
    return I.new_ext("NonlinearConstraint", {"fun": args[0]}, F(), node)


def svd_flip(I, args, kw, node):
    return Tup(args[:2])


def partialf(I, args, kw, node):
    return I.new_ext("partial", {"func": args[0], "args": Tup(args[1:]), "kw": I.new_dict(dict(kw), node=node)}, F(), node)


def skclone(I, args, kw, node):
    o = args[0]
    if isinstance(o, Ref):
        ob = I.st.get(o.oid)
        if isinstance(ob, Obj):
            p = I.call(I.get_attr(o, "get_params", node), [], {}, node)
            d = I.st.get(p.oid).d
            return I.instantiate(ob.cls, [], {k: deepcopy(I, v) for k, v in d.items()}, node)
    return X.unknown(I, *args)


def spread(I, args, kw, node):
    """numpy generic reduction used as np.ptp"""
    return reduction("ptp", iv=iv_nn)(I, args, kw, node)


u_id = lambda u: u
FN = {
    "numpy.abs": np_abs, "builtins.abs": np_abs, "numpy.fabs": np_abs, "numpy.sqrt": np_sqrt, "numpy.square": np_square, "math.sqrt": np_sqrt,
    "numpy.sign": _elem1("sign", u_one, iv=iv_sign), "numpy.negative": _elem1("negate", u_id, iv=lambda l, h: X.iv_neg((l, h))),
    "numpy.exp": _elem1("exp", unonlin, "f", iv_nn), "numpy.log": _elem1("log", udimless, "f"), "numpy.log2": _elem1("log2", udimless, "f"), "numpy.log10": _elem1("log10", udimless, "f"), "numpy.log1p": _elem1("log1p", udimless, "f"),
    "math.log": _elem1("log", udimless, "f"), "math.exp": _elem1("exp", unonlin, "f", iv_nn), "math.log2": _elem1("log2", udimless, "f"),
    "numpy.sin": _elem1("sin", unonlin, "f", lambda l, h: (-1, 1)), "numpy.cos": _elem1("cos", unonlin, "f", lambda l, h: (-1, 1)),
    "numpy.tan": _elem1("tan", unonlin, "f"), "numpy.tanh": _elem1("tanh", unonlin, "f", lambda l, h: (-1, 1)),
    "numpy.arcsin": _elem1("arcsin", udimless, "f", lambda l, h: (-math.pi / 2, math.pi / 2)), "numpy.arccos": _elem1("arccos", udimless, "f", lambda l, h: (0, math.pi)),
    "numpy.arctan": _elem1("arctan", unonlin, "f"), "numpy.reciprocal": _elem1("recip", lambda u: upow(u, -1) if u != ANYUNIT else None, "f"),
    "numpy.isnan": np_isnan, "numpy.isfinite": _elem1("isfinite", u_one, "b", lambda l, h: (0, 1)), "numpy.isinf": _elem1("isinf", u_one, "b", lambda l, h: (0, 1)),
    "numpy.logical_not": _elem1("not", u_one, "b", lambda l, h: (0, 1)), "numpy.nan_to_num": np_nan_to_num, "numpy.round": np_round_arr, "numpy.around": np_round_arr, "numpy.rint": np_round_arr,
    "numpy.floor": np_floorceil("floor"), "numpy.ceil": np_floorceil("ceil"), "math.floor": np_floorceil("floor"), "math.ceil": np_floorceil("ceil"), "numpy.clip": np_clip,
    "numpy.add": _bin("add"), "numpy.subtract": _bin("sub"), "numpy.multiply": _bin("mul"), "numpy.divide": _bin("div"), "numpy.power": _bin("pow"), "numpy.float_power": _bin("pow"), "numpy.mod": _bin("mod"), "numpy.floor_divide": _bin("floordiv"),
    "numpy.maximum": _minmax2("maximum"), "numpy.minimum": _minmax2("minimum"), "numpy.fmax": _minmax2("maximum"), "numpy.fmin": _minmax2("minimum"),
    "numpy.logical_and": _logic("and"), "numpy.logical_or": _logic("or"), "numpy.bitwise_and": _logic("and"), "numpy.bitwise_or": _logic("or"), "numpy.logical_xor": _logic("xor"),
    "numpy.greater": _cmpfn(ast.Gt), "numpy.less": _cmpfn(ast.Lt), "numpy.greater_equal": _cmpfn(ast.GtE), "numpy.less_equal": _cmpfn(ast.LtE), "numpy.equal": _cmpfn(ast.Eq), "numpy.not_equal": _cmpfn(ast.NotEq),
    "numpy.sum": reduction("sum", iv=iv_sum), "numpy.nansum": reduction("sum", iv=iv_sum, scont=True), "numpy.mean": reduction("mean", iv=iv_keep, dt="f"), "numpy.nanmean": reduction("mean", iv=iv_keep, dt="f"),
    "numpy.median": reduction("median", iv=iv_keep, dt="f", scont=False), "numpy.nanmedian": reduction("median", iv=iv_keep, dt="f", scont=False),
    "numpy.var": reduction("var", unit=lambda u: upow(u, 2), iv=iv_nn, dt="f"), "numpy.nanvar": reduction("var", unit=lambda u: upow(u, 2), iv=iv_nn, dt="f"),
    "numpy.std": reduction("std", iv=iv_nn, dt="f"), "numpy.nanstd": reduction("std", iv=iv_nn, dt="f"),
    "numpy.max": reduction("max", iv=iv_keep), "numpy.min": reduction("min", iv=iv_keep), "numpy.nanmax": reduction("max", iv=iv_keep), "numpy.nanmin": reduction("min", iv=iv_keep),
    "numpy.prod": reduction("prod", unit=udimless, iv=iv_sum), "numpy.any": reduction("any", unit=u_one, dt="b", iv=iv_bool), "numpy.all": reduction("all", unit=u_one, dt="b", iv=iv_bool), "numpy.ptp": spread,
    "numpy.count_nonzero": np_count_nonzero, "numpy.average": np_average, "numpy.percentile": np_percentile, "numpy.quantile": np_percentile, "numpy.nanpercentile": np_percentile,
    "numpy.cumsum": np_cum("cumsum"), "numpy.cumprod": np_cum("cumprod"), "numpy.diff": np_cum("diff"),
    "numpy.argmax": np_argext("argmax"), "numpy.argmin": np_argext("argmin"), "numpy.nanargmax": np_argext("argmax"), "numpy.nanargmin": np_argext("argmin"),
    "numpy.sort": sortlike("sort"), "numpy.partition": sortlike("partition"), "numpy.argsort": sortlike("argsort"), "numpy.unique": np_unique,
    "numpy.union1d": _setop("union1d"), "numpy.setdiff1d": _setop("setdiff1d"), "numpy.intersect1d": _setop("intersect1d"),
    "numpy.zeros": _filled("zeros", ANYUNIT, 0), "numpy.ones": _filled("ones", DIMLESS, 1), "numpy.empty": _filled("empty", ANYUNIT, None), "numpy.full": np_full,
    "numpy.zeros_like": _like("zeros"), "numpy.ones_like": _like("ones"), "numpy.empty_like": _like("empty"), "numpy.full_like": _like("full"),
    "numpy.eye": np_eye, "numpy.identity": np_eye, "numpy.arange": np_arange, "numpy.linspace": np_linspace, "numpy.repeat": np_repeat, "numpy.tile": np_tile, "numpy.broadcast_to": np_broadcast_to,
    "numpy.array": np_array, "numpy.asarray": np_asarray, "numpy.asanyarray": np_asarray, "numpy.ascontiguousarray": np_asarray, "numpy.asfortranarray": np_asarray, "numpy.copy": np_array, "numpy.atleast_1d": np_atleast(1), "numpy.atleast_2d": np_atleast(2), "numpy.matrix": np_matrix, "numpy.asmatrix": np_matrix, "numpy.mat": np_matrix,
    "numpy.reshape": np_reshape, "numpy.transpose": np_transpose, "numpy.ravel": lambda I, a, k, n: flatten(I, X.as_arr(I, a[0]), n, copy=False) if X.as_arr(I, a[0]) is not None else X.unknown(I, *a),
    "numpy.column_stack": _stack("column_stack"), "numpy.vstack": _stack("vstack"), "numpy.hstack": _stack("hstack"), "numpy.concatenate": _stack("concatenate"), "numpy.stack": _stack("stack"),
    "numpy.diag": np_diag, "numpy.diagonal": np_diag, "numpy.where": np_where, "numpy.nonzero": np_where, "numpy.flatnonzero": lambda I, a, k, n: np_where(I, a, k, n).items[0],
    "numpy.argwhere": lambda I, a, k, n: X.unknown(I, *a), "numpy.cov": np_cov, "numpy.corrcoef": lambda I, a, k, n: (lambda r: r.w(f=r.f.w(unit=DIMLESS, term=T("corrcoef", X.tt(r)))) if isinstance(r, (Arr, Num)) else r)(np_cov(I, a, k, n)),
    "numpy.linalg.svd": np_svd, "scipy.linalg.svd": np_svd, "numpy.linalg.inv": np_inv("inv"), "scipy.linalg.inv": np_inv("inv"), "numpy.linalg.pinv": np_inv("pinv", False), "scipy.linalg.pinv": np_inv("pinv", False),
    "scipy.linalg.sqrtm": sqrtm, "numpy.linalg.eigh": np_eigh, "numpy.linalg.eig": np_eigh, "scipy.linalg.eigh": np_eigh, "scipy.linalg.orth": orth, "numpy.linalg.lstsq": np_lstsq, "scipy.linalg.lstsq": np_lstsq, "numpy.linalg.solve": np_solve, "scipy.linalg.solve": np_solve,
    "numpy.linalg.norm": np_norm, "scipy.linalg.norm": np_norm, "numpy.dot": np_dot, "numpy.matmul": np_matmul, "numpy.inner": np_dot, "numpy.vdot": np_dot, "numpy.outer": np_outer, "numpy.einsum": np_einsum, "numpy.linalg.multi_dot": np_einsum,
    "numpy.trace": lambda I, a, k, n: FN["numpy.sum"](I, [np_diag(I, a, {}, n)], {}, n), "numpy.triu": np_triu, "numpy.tril": np_triu, "numpy.fill_diagonal": np_fill_diag, "numpy.apply_along_axis": np_apply_along,
    "numpy.size": np_size, "numpy.shape": np_shape, "numpy.ndim": np_ndim, "numpy.isscalar": np_isscalar, "numpy.dtype": np_dtype, "numpy.allclose": np_allclose, "numpy.array_equal": np_array_equal, "numpy.isclose": _minmax2("isclose"),
    "numpy.take": np_take, "numpy.delete": np_delete, "numpy.squeeze": np_squeeze, "numpy.expand_dims": np_expand, "numpy.copyto": np_copyto, "numpy.float64": py_float, "numpy.float32": py_float, "numpy.int64": py_int, "numpy.int32": py_int, "numpy.intp": py_int, "numpy.bool_": py_bool,
    "scipy.stats.trim_mean": trim_mean, "statsmodels.robust.mad": sm_mad, "statsmodels.robust.scale.mad": sm_mad,
    "scipy.stats.norm.ppf": dist_ppf("norm"), "scipy.stats.chi2.ppf": dist_ppf("chi2"), "scipy.stats.norm.cdf": dist_cdf("ncdf"), "scipy.stats.norm.pdf": dist_cdf("npdf"), "scipy.stats.chi2.cdf": dist_cdf("ccdf"),
    "scipy.spatial.distance.pdist": pdist, "scipy.spatial.distance.squareform": squareform, "scipy.spatial.distance.cdist": cdist,
    "scipy.optimize.minimize": minimize, "scipy.optimize.differential_evolution": lambda I, a, k, n: minimize(I, a, k, n, "de"), "scipy.optimize.NonlinearConstraint": nonlin,
    "statsmodels.api.OLS": sm_ols, "statsmodels.api.add_constant": sm_add_constant, "statsmodels.regression.quantile_regression.QuantReg": sm_ols, "statsmodels.tools.add_constant": sm_add_constant, "statsmodels.api.QuantReg": sm_ols,
    "sklearn.utils.validation.check_is_fitted": check_is_fitted, "sklearn.metrics.mean_squared_error": r2_like, "sklearn.metrics.r2_score": r2_like, "sklearn.metrics.mean_absolute_error": r2_like, "sklearn.utils.extmath.svd_flip": svd_flip, "sklearn.base.clone": skclone,
    "builtins.len": py_len, "builtins.range": py_range, "builtins.round": py_round, "builtins.int": py_int, "builtins.float": py_float, "builtins.bool": py_bool, "builtins.str": py_str, "builtins.repr": py_str, "builtins.type": py_type,
    "builtins.isinstance": py_isinstance, "builtins.issubclass": py_issubclass, "builtins.getattr": py_getattr, "builtins.setattr": py_setattr, "builtins.delattr": py_delattr, "builtins.vars": py_vars, "builtins.hasattr": py_hasattr, "builtins.callable": py_callable, "builtins.eval": py_eval,
    "builtins.max": py_minmax("max"), "builtins.min": py_minmax("min"), "builtins.sum": py_sum, "builtins.any": py_anyall("any"), "builtins.all": py_anyall("all"), "builtins.zip": py_zip, "builtins.enumerate": py_enumerate, "builtins.map": py_map,
    "builtins.sorted": py_sorted, "builtins.list": py_list, "builtins.tuple": py_tuple, "builtins.dict": py_dict, "builtins.set": py_set, "builtins.frozenset": py_set, "builtins.slice": py_slice, "builtins.super": py_super, "builtins.print": py_print, "builtins.open": py_open,
    "builtins.iter": py_iter, "builtins.next": py_next, "builtins.reversed": py_reversed, "builtins.pow": py_pow, "builtins.divmod": py_divmod, "builtins.hash": py_hash, "builtins.id": py_hash,
    "inspect.signature": signature, "warnings.warn": warn, "collections.defaultdict": defaultdict, "copy.deepcopy": copyfn, "copy.copy": shallowfn, "functools.partial": partialf,
    "pandas.DataFrame": pd_frame, "pandas.Series": pd_series,
    "time.time": timefn, "time.perf_counter": timefn, "time.monotonic": timefn, "time.process_time": timefn, "datetime.datetime.now": timefn,
}
for _n in ("distance_covariance_sqr", "u_distance_covariance_sqr", "distance_covariance", "distance_correlation", "distance_correlation_sqr", "u_distance_correlation_sqr"):
    FN["dcor." + _n] = dcor_fn(_n)
for _n in ("randint", "rand", "randn", "random", "normal", "uniform", "choice", "permutation", "shuffle", "seed", "default_rng", "RandomState", "standard_normal", "random_sample", "set_state", "get_state"):
    FN["numpy.random." + _n] = np_random(_n)
for _n in ("random", "uniform", "randint", "choice", "shuffle", "gauss", "sample", "seed"):
    FN["random." + _n] = np_random(_n)
for _n in ("Exception", "ValueError", "TypeError", "RuntimeError", "NotImplementedError", "ImportError", "KeyError", "IndexError", "AttributeError", "AssertionError", "StopIteration", "ArithmeticError", "ZeroDivisionError", "UserWarning", "Warning", "FutureWarning", "DeprecationWarning", "OSError", "NameError", "LookupError", "BaseException"):
    FN["builtins." + _n] = py_exc(_n)

# functions that take callables or heap objects: no distribution over unions of arguments
NOSPLIT = {"builtins.setattr", "builtins.delattr", "builtins.vars", "builtins.getattr", "builtins.isinstance", "builtins.type", "builtins.print", "builtins.str", "builtins.list", "builtins.tuple", "builtins.dict", "copy.deepcopy", "copy.copy", "warnings.warn",
           "scipy.optimize.minimize", "scipy.optimize.differential_evolution", "numpy.apply_along_axis", "builtins.eval", "builtins.zip", "builtins.map", "builtins.hasattr", "builtins.callable", "builtins.bool",
           "numpy.array", "numpy.asarray", "builtins.max", "builtins.min", "builtins.len"}

_CONST = {"numpy.pi": math.pi, "numpy.e": math.e, "numpy.inf": math.inf, "math.pi": math.pi, "math.inf": math.inf, "numpy.euler_gamma": 0.5772156649015329}


def ext_attr(I, e, name, node):
    p = X.norm_path(e.path + "." + name)
    if p in _CONST:
        return num(_CONST[p])
    if p in ("numpy.nan", "math.nan", "numpy.NaN"):
        return Num("float", f=F(ANYUNIT, deps=frozenset({"nan"}), term=T("c", "nan")))
    if p == "numpy.newaxis":
        return NONE
    if p.startswith("os.environ"):
        I.emit("effect", node, path=p)
    return Ext(p)


_ARRATTR = ("shape", "T", "ndim", "size", "dtype", "columns", "index", "values", "flat", "A", "name", "real", "nbytes", "iloc", "loc", "array")


def val_attr(I, v, name, node):
    if isinstance(v, TopT):
        return Top(v.f.deps)
    if isinstance(v, Arr):
        return arr_attr(I, v, name, node)
    if isinstance(v, Num):
        if v.npy:
            if name == "shape":
                return Tup([])
            if name == "dtype":
                return Opaque("dtype:%s" % {"int": "i", "float": "f", "bool": "b"}.get(v.ity, "?"))
            if name in ("ndim",):
                return num(0)
            if name == "size":
                return num(1)
            if name in ("T", "real"):
                return v
        elif name in ("shape", "dtype", "ndim", "T", "any", "all", "reshape", "astype", "item", "sum", "mean", "flatten", "ravel"):
            if v.ity in ("int", "float", "bool"):
                I.err("AttributeError", "'%s' object has no attribute '%s'" % (v.ity, name), node)
            return X.unknown(I, v)
        return Meth(v, name)
    if isinstance(v, Const):
        if isinstance(v.v, bool) and name in ("any", "all", "item", "astype"):
            return Meth(v, name)
        if isinstance(v.v, str) and not hasattr("", name):
            I.err("AttributeError", "'str' object has no attribute '%s'" % name, node)
        return Meth(v, name)
    if isinstance(v, Slice):
        return {"start": v.a, "stop": v.b, "step": v.s}.get(name, NONE)
    if isinstance(v, Tup) and not hasattr((), name):
        I.err("AttributeError", "'tuple' object has no attribute '%s'" % name, node)
    if isinstance(v, SuperV):
        ref = v.self_
        o = I.st.get(ref.oid)
        owner = None
        for k in I.mro(o.cls):
            if owner is not None and isinstance(k, Cls) and name in k.ns:
                c = k.ns[name]
                return bind(c, ref) if isinstance(c, Func) else c
            if isinstance(k, Cls) and owner is None and v.fn in k.ns:
                owner = k
        r = est_attr(I, ref, o, name, node)
        return r if r is not None else Meth(ref, name)
    if isinstance(v, TopT) or isinstance(v, Opaque):
        return Meth(v, name)
    if isinstance(v, Meth) and isinstance(v.recv, Cls) and v.name == "__init__":
        return Meth(v, name)
    return Meth(v, name)


def arr_attr(I, v, name, node):
    if name == "shape":
        if v.shape is None:
            return TopT(F(deps=v.f.deps))
        return Tup([X.intnum(d, NODEPS, I) for d in v.shape])
    if name == "T":
        return X.transpose(I, v)
    if name == "ndim":
        return num(len(v.shape)) if v.shape is not None else Num("int", lo=0, f=F(deps=v.f.deps))
    if name == "size":
        s = X.size(v)
        return X.intnum(s, NODEPS, I) if s is not None else Num("int", lo=0, f=F(deps=v.f.deps))
    if name == "dtype":
        return Opaque("dtype:%s" % v.dt)
    if name in ("columns",):
        if v.cont != "frame":
            if v.cont in ("nd", "series", "mat"):
                I.err("AttributeError", "'%s' object has no attribute 'columns'" % v.cont, node)
            return X.unknown(I, v)
        return Arr((v.shape[1],) if v.shape is not None else None, "index", "s", frozenset([("labels",)]), f=F(deps=frozenset({"labels"}), term=T("columns", X.tt(v))))
    if name == "index":
        if v.cont in ("frame", "series"):
            return Arr((v.shape[0],) if v.shape is not None else None, "index", "?", frozenset([("labels",)]), f=F(rows=("pt", frozenset([0])) if v.f.rows[1] else NOROWS, deps=frozenset({"labels"})))
        I.err("AttributeError", "no attribute 'index'", node)
    if name in ("values", "array", "A", "A1"):
        if v.cont in ("frame", "series", "index"):
            return v.w(cont="nd", vid=uid(), lab=None)
        if v.cont == "nd":
            I.err("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name, node)
        return v.w(cont="nd", vid=uid())
    if name in ("iloc", "loc", "iat", "at"):
        if v.cont == "nd":
            I.err("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name, node)
        return Meth(v, name)
    if name in ("real", "flat"):
        return v
    if name == "name":
        return Str(F(deps=frozenset({"labels"})))
    if name == "to_numpy" and v.cont in ("nd", "mat"):
        I.err("AttributeError", "'numpy.ndarray' object has no attribute 'to_numpy'", node)
    if v.cont == "frame" and name in ("reshape", "ravel", "flatten", "item", "argsort"):
        I.err("AttributeError", "'DataFrame' object has no attribute '%s'" % name, node)
    if v.cont == "series" and name in ("reshape", "flatten"):
        I.err("AttributeError", "'Series' object has no attribute '%s'" % name, node)
    if name == "flags":
        return Meth(v, "flags")
    if name in ("imag", "strides", "itemsize", "nbytes", "base", "data", "ctypes", "device"):
        return X.unknown(I, v)
    if name == "mT":
        return X.transpose(I, v)
    if name not in AMETH and name not in NDATTR and not name.startswith("__") and v.cont == "nd":
        I.err("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name, node)
    return Meth(v, name)


# ------------------------------------------------------------------ array methods
def m_reshape(I, a, args, kw, node):
    dims = args
    if len(args) == 1 and not isinstance(args[0], (Num, Const)):
        dims = I.exact_items(args[0])
    if dims is None:
        return Arr(None, dt=a.dt, bufs=a.bufs, f=a.f)
    o = kw.get("order")
    return X.reshape(I, a, list(dims), node, order=o.v if isinstance(o, Const) else None)


def m_fill(I, a, args, kw, node):
    v = args[0]
    lo, hi = X.num_iv(v)
    X.write(I, a, a.w(f=F(v.f.unit, (v.f.rows[0], frozenset()), v.f.deps, T("full", X.tt(v), repr(a.shape))), lo=lo, hi=hi), node, full=True)
    return NONE


def m_inplace_sort(op):
    def f(I, a, args, kw, node):
        if a.cont in ("frame", "series"):
            return X.unknown(I, a)
        r = sortlike(op)(I, [a] + list(args), kw, node)
        X.write(I, a, a.w(f=r.f, lo=r.lo, hi=r.hi), node, full=True)
        return NONE
    return f


def m_item(I, a, args, kw, node):
    if args:
        return X.index(I, a, list(args), node)
    if a.shape is not None and X.size(a) != ONE and X.generic(X.size(a)):
        I.err("ValueError", "can only convert an array of size 1 to a Python scalar", node)
    return Num({"i": "int", "b": "bool"}.get(a.dt, "float"), lo=a.lo, hi=a.hi, f=F(a.f.unit, (a.f.rows[0] if a.f.rows[0] not in ("pt", "equi") or not a.f.rows[1] else "unk", frozenset()), a.f.deps, a.f.term))


def m_copy(I, a, args, kw, node):
    return shallow(I, a)


def m_astype(I, a, args, kw, node):
    r = astype(I, a, args[0] if args else kw.get("dtype"), node)
    if "copy" in kw and truthy(kw["copy"]) is False and r.dt == a.dt:
        return a
    return r


def m_to_numpy(I, a, args, kw, node):
    if truthy(kw.get("copy")):
        return shallow(I, a).w(cont="nd", lab=None)
    r = a.w(cont="nd", vid=uid(), lab=None)
    dtv = ga(args, kw, 0, "dtype")
    if not isnone(dtv):
        return astype(I, r, dtv, node)
    return r


def m_tolist(I, a, args, kw, node):
    e, _ = I.elem_of(a)
    if isinstance(a, Arr) and a.shape is not None and len(a.shape) == 1 and a.shape[0].cval() is not None and a.shape[0].cval() <= 12:
        return I.new_list([X.index(I, a, [num(i)], node) for i in range(int(a.shape[0].cval()))], node=node)
    return I.new_list(None, e, a.shape[0] if a.shape else None, node=node)


def via(path):
    def f(I, a, args, kw, node):
        return FN[path](I, [a] + list(args), kw, node)
    return f


def via_pd(path):
    """pandas reductions default to axis 0"""
    def f(I, a, args, kw, node):
        if a.cont in ("frame", "series") and "axis" not in kw and not args and a.shape is not None and len(a.shape) == 2:
            kw = dict(kw, axis=num(0))
        return FN[path](I, [a] + list(args), kw, node)
    return f


def m_setflags(I, a, args, kw, node):
    X.rehead(I, a, None, "flags", node)
    return NONE


def m_resize(I, a, args, kw, node):
    if a.cont != "nd":
        return X.unknown(I, a)
    X.rehead(I, a, list(args), "shape", node, exact=False)
    return NONE


def clobber(I, a, node, f=None):
    """a function that may overwrite the values of an array"""
    if isinstance(a, Union):
        for o in a.opts:
            if o is not UNDEF:
                clobber(I, o, node, f)
    elif isinstance(a, Arr):
        r = a.f.rows
        X.write(I, a, a.w(f=F(None, r if f is None else f.rows, a.f.deps | (f.deps if f is not None else NODEPS), T("u", uid())), lo=None, hi=None), node, full=True)


NDATTR = frozenset("""T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data device diagonal dot dtype dump dumps fill flags flat flatten
 getfield imag item itemsize itemset mT max mean min nbytes ndim newbyteorder nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take to_device tobytes
 tofile tolist tostring trace transpose var view""".split())
UNARY = frozenset("""abs absolute acos acosh arccos arccosh arcsin arcsinh arctan arctanh cbrt ceil conj conjugate cos cosh deg2rad degrees exp exp2 expm1 fabs floor invert isfinite isinf isnan log log10 log1p log2 logical_not negative positive
 rad2deg radians reciprocal rint sign signbit sin sinh spacing sqrt square tan tanh trunc cumsum""".split())
BINARY = frozenset("""add arctan2 bitwise_and bitwise_or bitwise_xor copysign divide equal float_power floor_divide fmax fmin fmod greater greater_equal heaviside hypot less less_equal logaddexp logical_and logical_or logical_xor
 matmul maximum minimum mod multiply nextafter not_equal pow power remainder subtract true_divide dot""".split())


def split_out(path, args, kw):
    """the array a numpy function is told to write to, if any"""
    if not path.startswith("numpy.") or path.count(".") > 2:
        return args, kw, None
    out = kw.get("out")
    t = path[6:]
    k = 1 if t in UNARY else 2 if t in BINARY else 3 if t in ("clip", "linalg.multi_dot") else None
    if t == "cumsum":
        k = None
    if "out" in kw:
        kw = {a: b for a, b in kw.items() if a != "out"}
        if isinstance(out, Tup) and len(out.items) == 1:
            out = out.items[0]
    elif k is not None and len(args) > k:
        args, out = args[:k], args[k]
    if not isinstance(out, (Arr, Union)):
        out = None
    return args, kw, out


def m_loc(I, a, args, kw, node):
    idx = X.parse_idx(I, args[0])
    if a.cont == "frame":
        r = X.index(I, a.w(cont="nd"), idx, node) if a.shape is not None and not any(isinstance(i, (Const, Str)) and isinstance(getattr(i, "v", ""), str) for i in idx) else TopT(F(a.f.unit, UNKROWS, a.f.deps))
        if isinstance(r, Arr):
            r = r.w(cont="frame" if r.shape is not None and len(r.shape) == 2 else "series", lab=a.lab)
        return r
    return X.index(I, a, idx, node)


AMETH = {
    "reshape": m_reshape, "astype": m_astype, "copy": m_copy, "flatten": lambda I, a, g, k, n: flatten(I, a, n, True, (k.get("order") or (g[0] if g else None)).v if (k.get("order") or g) else None),
    "ravel": lambda I, a, g, k, n: flatten(I, a, n, False), "transpose": lambda I, a, g, k, n: np_transpose(I, [a] + ([Tup(g)] if len(g) > 1 else list(g)), k, n), "fill": m_fill, "sort": m_inplace_sort("sort"), "partition": m_inplace_sort("partition"),
    "item": m_item, "to_numpy": m_to_numpy, "tolist": m_tolist, "dot": lambda I, a, g, k, n: X.matmul(I, a, g[0], n, op="dot"), "argsort": via("numpy.argsort"), "argmax": via("numpy.argmax"), "argmin": via("numpy.argmin"),
    "sum": via_pd("numpy.sum"), "mean": via_pd("numpy.mean"), "var": via_pd("numpy.var"), "std": via_pd("numpy.std"), "max": via_pd("numpy.max"), "min": via_pd("numpy.min"), "any": via_pd("numpy.any"), "all": via_pd("numpy.all"), "prod": via_pd("numpy.prod"), "median": via_pd("numpy.median"),
    "cumsum": via("numpy.cumsum"), "round": via("numpy.round"), "clip": via("numpy.clip"), "squeeze": via("numpy.squeeze"), "repeat": via("numpy.repeat"), "diagonal": via("numpy.diag"), "nonzero": via("numpy.nonzero"), "take": via("numpy.take"), "trace": via("numpy.trace"), "conj": lambda I, a, g, k, n: a,
    "setflags": m_setflags, "view": lambda I, a, g, k, n: a, "iloc": m_loc, "loc": m_loc, "abs": via("numpy.abs"), "isna": via("numpy.isnan"), "isnull": via("numpy.isnan"), "ptp": via("numpy.ptp"), "searchsorted": lambda I, a, g, k, n: X.unknown(I, a, *g), "tobytes": lambda I, a, g, k, n: Str(),
    "swapaxes": lambda I, a, g, k, n: X.transpose(I, a) if a.shape is not None and len(a.shape) == 2 else X.unknown(I, a), "resize": m_resize, "itemset": lambda I, a, g, k, n: X.arr_store(I, a, list(g[:-1]), g[-1], n) or NONE, "put": lambda I, a, g, k, n: X.arr_store(I, a, [g[0]], g[1], n) or NONE,
}


def call_ext(I, path, args, kw, node):
    fr = I.st.top
    path = X.norm_path(path)
    I.extcalls.add((path, fr.mod.path, getattr(node, "lineno", 0), fr.fn))
    f = FN.get(path)
    if f is None and path.startswith("sklearn.base.RegressorMixin.score"):
        return reg_score(I, args[0], args[1:], kw, node)
    if f is None:
        tail = path.rpartition(".")[2]
        if path.startswith("builtins.") and tail[:1].isupper():
            f = py_exc(tail)
        else:
            return unmodelled(I, path, args, kw, node)
    args, kw, into = split_out(path, list(args), kw)
    if into is not None:
        r = call_ext(I, path, args, kw, node)
        for o in into.opts if isinstance(into, Union) else [into]:
            if isinstance(o, Arr):
                if isinstance(r, Arr):
                    X.write(I, o, o.w(f=r.f, lo=r.lo, hi=r.hi), node, full=True)
                else:
                    clobber(I, o, node, r.f)
        if isinstance(into, Arr) and isinstance(r, Arr):
            return into.w(f=r.f, lo=r.lo, hi=r.hi)
        return into
    if kw:
        if path.startswith(("scipy.linalg.", "numpy.", "scipy.stats.")):
            for w, i in (("overwrite_a", 0), ("overwrite_b", 1), ("overwrite_input", 0), ("overwrite_x", 0)):
                if w in kw and truthy(kw[w]) is not False and len(args) > i:
                    r = call_ext(I, path, args, {a: b for a, b in kw.items() if a != w}, node)
                    clobber(I, args[i], node)
                    return r
        if path in ("numpy.nan_to_num", "sklearn.preprocessing.scale", "sklearn.preprocessing.normalize") and truthy(kw.get("copy")) is False and args and isinstance(args[0], Arr):
            r = call_ext(I, path, args, {a: b for a, b in kw.items() if a != "copy"}, node)
            if isinstance(r, Arr):
                X.write(I, args[0], args[0].w(f=r.f, lo=r.lo, hi=r.hi), node, full=True)
            return args[0]
    a = list(args)
    if path not in NOSPLIT and any(isinstance(x, Union) for x in a):
        return I.over_union(lambda *xs: f(I, list(xs), kw, node), *a)
    try:
        return f(I, a, kw, node)
    except (IndexError, TypeError, AttributeError, KeyError) as e:
        if isinstance(e, AbsRaise):
            raise
        if getattr(I, "strict", False):
            raise
        I.emit("model-gap", node, path=path, msg=repr(e))
        return unmodelled(I, path, args, kw, node)


QUIET = ("matplotlib.", "mpl_toolkits.")
INPLACE = ("numpy.put", "numpy.place", "numpy.putmask", "numpy.put_along_axis", "numpy.ndarray.sort", "numpy.ndarray.fill", "numpy.ndarray.partition", "numpy.ndarray.put", "numpy.ndarray.__setitem__")


def unmodelled(I, path, args, kw, node):
    if not path.startswith(QUIET):
        I.unmodelled[path] = I.unmodelled.get(path, 0) + 1
    if path.startswith("os.") or path.startswith(("subprocess.", "socket.", "shutil.", "tempfile.")):
        I.emit("effect", node, path=path)
    vals = list(args) + list(kw.values())
    if args and (path in INPLACE or path.startswith("numpy.") and path.endswith(".at")):
        clobber(I, args[0], node, F(deps=X.alldeps(vals)))
    r = X.unknown(I, *vals)
    if path.startswith(QUIET):
        return Opaque("mpl", F(deps=NODEPS))
    return r


STRM = {m for m in dir("") if not m.startswith("__")}


def pandas_meth(I, a, name, args, kw, node):
    if truthy(kw.get("inplace")):
        clobber(I, a, node)
        return NONE
    if a.cont in ("frame", "series") and name in ("insert", "update", "pop", "__setitem__"):
        clobber(I, a, node)
    return X.unknown(I, a, *args)


def call_meth(I, recv, name, args, kw, node):
    if isinstance(recv, Union):
        return I.over_union(lambda r: call_meth(I, r, name, args, kw, node), recv)
    if isinstance(recv, Arr):
        f = AMETH.get(name)
        if f is None:
            if recv.cont == "nd" and name not in NDATTR and not name.startswith("_"):
                I.err("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name, node)
            return pandas_meth(I, recv, name, args, kw, node)
        if truthy(kw.get("inplace")) and recv.cont in ("frame", "series"):
            return pandas_meth(I, recv, name, args, kw, node)
        if name in ("sum", "mean", "var", "std", "max", "min", "any", "all", "prod", "clip", "cumsum", "round", "dot", "take") and isinstance(kw.get("out"), Arr) and recv.cont == "nd":
            r = call_meth(I, recv, name, args, {a: b for a, b in kw.items() if a != "out"}, node)
            if isinstance(r, Arr):
                X.write(I, kw["out"], kw["out"].w(f=r.f, lo=r.lo, hi=r.hi), node, full=True)
            else:
                clobber(I, kw["out"], node)
            return kw["out"]
        try:
            return f(I, recv, list(args), kw, node)
        except (IndexError, TypeError, AttributeError, KeyError) as e:
            if getattr(I, "strict", False):
                raise
            I.emit("model-gap", node, path="ndarray." + name, msg=repr(e))
            return X.unknown(I, recv, *args)
    if isinstance(recv, Num):
        if name in ("item",):
            return recv.w(npy=False)
        if name in ("is_integer",):
            return X.unkbool(recv)
        if recv.npy:
            a = X.as_arr(I, recv)
            if name == "astype":
                d = X.dtype_code(args[0])
                return recv.w(ity={"f": "float", "i": "int", "b": "bool"}.get(d, recv.ity))
            if name in ("flatten", "ravel"):
                return a.w(shape=(ONE,), vid=uid(), bufs=frozenset([("new", uid())]))
            if name == "reshape":
                return m_reshape(I, a.w(vid=uid(), bufs=frozenset([("new", uid())])), list(args), kw, node)
            if name in ("any", "all", "sum", "mean", "max", "min", "copy", "squeeze"):
                return recv
            if name == "fill":
                return NONE
            if name in ("tolist",):
                return recv.w(npy=False)
            if name in ("round",):
                return np_round_arr(I, [recv], {}, node)
            if name in AMETH:
                return AMETH[name](I, a, list(args), kw, node)
        return X.unknown(I, recv, *args)
    if isinstance(recv, (Const, Str)):
        return str_meth(I, recv, name, args, kw, node)
    if isinstance(recv, Tup):
        if name == "index":
            return Num("int", lo=0, f=F(DIMLESS))
        if name == "count":
            return Num("int", lo=0, f=F(DIMLESS))
        I.err("AttributeError", "'tuple' object has no attribute '%s'" % name, node)
    if isinstance(recv, Cls):
        if name == "mro":
            return X.unknown(I, recv)
        return X.unknown(I, *args)
    if isinstance(recv, Ref):
        o = I.st.get(recv.oid)
        if isinstance(o, ListObj):
            return list_meth(I, recv, o, name, args, kw, node)
        if isinstance(o, DictObj):
            return dict_meth(I, recv, o, name, args, kw, node)
        if isinstance(o, Obj):
            return obj_meth(I, recv, o, name, args, kw, node)
        if isinstance(o, ExtObj):
            return extobj_meth(I, recv, o, name, args, kw, node)
    if isinstance(recv, Opaque) and recv.tag == "mpl":
        return Opaque("mpl")
    if isinstance(recv, Seq) and name == "__next__":
        return recv.elem
    if isinstance(recv, Opaque) and str(recv.tag).startswith("user:"):
        # call into a user supplied object: unknown result depending on its inputs
        return X.unknown(I, recv, *args)
    return X.unknown(I, recv, *(list(args) + list(kw.values())))


def str_meth(I, recv, name, args, kw, node):
    if isinstance(recv, Const) and not isinstance(recv.v, str):
        if isinstance(recv.v, bool) and name in ("any", "all", "item"):
            return recv
        if isinstance(recv.v, bool) and name == "astype":
            return num(int(recv.v))
        I.err("AttributeError", "'%s' object has no attribute '%s'" % (type(recv.v).__name__, name), node)
    if name not in STRM:
        I.err("AttributeError", "'str' object has no attribute '%s'" % name, node)
    if isinstance(recv, Const) and all(isinstance(a, (Const,)) or isinstance(a, Num) and a.c is not None for a in args) and not kw and name != "join":
        try:
            r = getattr(recv.v, name)(*[a.v if isinstance(a, Const) else a.c for a in args])
        except Exception as e:
            I.err(type(e).__name__, str(e), node)
        if isinstance(r, str) or isinstance(r, bool):
            return X.text(r, recv, *args)
        if isinstance(r, int):
            return num(r)
        if isinstance(r, tuple):
            return Tup([Const(x) for x in r])
        if isinstance(r, list):
            return I.new_list([Const(x) for x in r], node=node)
        return X.unknown(I, recv)
    if name == "format" and isinstance(recv, Const):
        got = {k: X.plain(v) for k, v in kw.items()}
        pos = [X.plain(v) for v in args]
        if all(k for k, _ in list(got.values()) + pos):
            try:
                return X.text(recv.v.format(*[v for _, v in pos], **{k: v for k, (_, v) in got.items()}), recv, *args, *kw.values())
            except (IndexError, KeyError, ValueError, AttributeError, TypeError):
                pass
    if name == "join" and isinstance(recv, Const) and len(args) == 1:
        its = I.exact_items(args[0])
        if its is not None and all(isinstance(x, Const) and isinstance(x.v, str) for x in its):
            return X.text(recv.v.join(x.v for x in its), recv, *its)
    d = recv.f.deps | X.alldeps(list(args) + list(kw.values()))
    if name in ("partition", "rpartition"):
        return Tup([Str(F(deps=d))] * 3)
    if name in ("split", "rsplit", "splitlines"):
        return I.new_list(None, Str(F(deps=d)), None, node=node)
    if name in ("startswith", "endswith", "isdigit", "isalpha"):
        return X.unkbool(recv)
    if name in ("find", "index", "count"):
        return Num("int", f=F(deps=d))
    return Str(F(deps=d))


def list_meth(I, ref, o, name, args, kw, node):
    if name == "append":
        I.touch(ref, "append", node)
        X.list_append(I, ref, args[0])
        return NONE
    if name == "extend":
        I.touch(ref, "extend", node)
        X.list_extend(I, ref, args[0])
        return NONE
    if name == "copy":
        return shallow(I, ref)
    if name in ("insert",):
        I.touch(ref, "insert", node)
        ob = I.st.mut(ref.oid)
        if ob.items is not None and ival(args[0]) is not None:
            ob.items.insert(ival(args[0]), args[1])
        else:
            X.list_append(I, ref, args[1])
        return NONE
    if name in ("pop", "remove", "clear", "sort", "reverse"):
        I.touch(ref, name, node)
        ob = I.st.mut(ref.oid)
        if name == "pop":
            if ob.items is not None:
                k = ival(args[0]) if args else -1
                if not ob.items:
                    I.err("IndexError", "pop from empty list", node)
                if k is not None and -len(ob.items) <= k < len(ob.items):
                    return ob.items.pop(k)
            return ob.elem if ob.elem is not None else Top()
        if name == "clear":
            ob.items, ob.elem, ob.len = [], None, None
        elif name == "reverse" and ob.items is not None:
            ob.items.reverse()
        elif name == "remove" and ob.items is not None:
            e = None
            for x in ob.items:
                e = x if e is None else jval(e, x, Ctx())
            hit = [i for i, x in enumerate(ob.items) if X.eqv(I, x, args[0]) is True]
            if hit:
                ob.items.pop(hit[0])
            else:
                ob.items, ob.elem, ob.len = None, e, None
        elif name == "sort" and ob.items is not None:
            ks = [pykey(x) for x in ob.items]
            if all(isinstance(k, str) for k in ks) or all(isinstance(k, (int, float)) for k in ks):
                ob.items = [const_of(k) for k in sorted(ks)]
            else:
                e = None
                for x in ob.items:
                    e = x if e is None else jval(e, x, Ctx())
                n = len(ob.items)
                ob.items, ob.elem, ob.len = None, e, Poly.const(n)
        return NONE
    if name in ("index", "count"):
        if o.items is not None and name == "index":
            for i, x in enumerate(o.items):
                if X.eqv(I, x, args[0]) is True:
                    return num(i)
        return Num("int", lo=0, f=F(DIMLESS, deps=X.alldeps(o.values())))
    I.err("AttributeError", "'list' object has no attribute '%s'" % name, node)


def strip_undef(v):
    if isinstance(v, Union) and UNDEF in v.opts:
        r = [x for x in v.opts if x is not UNDEF]
        return r[0] if len(r) == 1 else Union(r)
    return v


def dict_meth(I, ref, o, name, args, kw, node):
    if name in ("get", "pop", "setdefault"):
        I.dispatch(args[0], node)
        k = pykey(args[0]) if not isinstance(args[0], (Str, TopT)) else None
        dflt = args[1] if len(args) > 1 else (NONE if name != "pop" else None)
        if name != "get":
            I.touch(ref, name, node)
        if k is None and not (isinstance(args[0], Const) and args[0].v is None):
            e = o.elem
            for x in o.d.values():
                x = strip_undef(x)
                e = x if e is None else jval(e, x, Ctx())
            return mkunion([e or Top(), dflt or NONE], Ctx())
        if k in o.d:
            v = o.d[k]
            may = isinstance(v, Union) and UNDEF in v.opts
            v = strip_undef(v)
            if name == "pop":
                del I.st.mut(ref.oid).d[k]
            if may and dflt is not None:
                v = mkunion([v, dflt], Ctx())
            return v
        if o.open:
            e = o.elem if o.elem is not None else Top()
            return mkunion([e] + ([dflt] if dflt is not None else []), Ctx())
        if name == "pop" and dflt is None:
            I.err("KeyError", repr(k), node)
        if name == "setdefault":
            I.st.mut(ref.oid).d[k] = dflt
        return dflt
    if name == "keys":
        its = I.exact_items(ref)
        return Tup(its) if its is not None else Seq(Str(), None)
    if name == "values":
        if not o.open and not any(isinstance(x, Union) and UNDEF in x.opts for x in o.d.values()):
            return Tup(list(o.d.values()))
        e = o.elem
        for x in o.d.values():
            x = strip_undef(x)
            e = x if e is None else jval(e, x, Ctx())
        return Seq(e or Top(), None)
    if name == "items":
        if not o.open and not any(isinstance(x, Union) and UNDEF in x.opts for x in o.d.values()):
            return Tup([Tup([const_of(k), v]) for k, v in o.d.items()])
        e = o.elem
        for x in o.d.values():
            x = strip_undef(x)
            e = x if e is None else jval(e, x, Ctx())
        return Seq(Tup([Str(), e or Top()]), None)
    if name == "update":
        I.touch(ref, "update", node)
        for a in args:
            X.dict_update(I, ref, a)
        ob = I.st.mut(ref.oid)
        for k, v in kw.items():
            if k == "**":
                ob.open = True
                ob.elem = v
            else:
                ob.d[k] = v
        return NONE
    if name == "copy":
        return shallow(I, ref)
    if name == "clear":
        I.touch(ref, "clear", node)
        ob = I.st.mut(ref.oid)
        ob.d, ob.open, ob.elem = {}, False, None
        return NONE
    if name == "popitem":
        I.touch(ref, "popitem", node)
        return X.unknown(I, ref)
    I.err("AttributeError", "'dict' object has no attribute '%s'" % name, node)


def obj_meth(I, ref, o, name, args, kw, node):
    if name == "get_params":
        return est_get_params(I, ref, node)
    if name in ("set_params", "_set_params"):
        return est_set_params(I, ref, kw, node)
    if name == "_get_param_names":
        return I.new_list([Const(x) for x in sorted(init_params(I, o.cls))], node=node)
    if name == "score":
        return reg_score(I, ref, list(args), kw, node)
    if name == "fit_transform":
        I.call(I.get_attr(ref, "fit", node), list(args), kw, node)
        return I.call(I.get_attr(ref, "transform", node), list(args[:1]), {}, node)
    if name in ("__repr__", "__str__"):
        return Str()
    if name == "__init__":
        return NONE
    return X.unknown(I, ref, *args)


def extobj_meth(I, ref, o, name, args, kw, node):
    k = o.kind
    if k == "smodel" and name == "fit":
        return ext_regfit(I, o, args, kw, node)
    if k == "smresult":
        if name == "predict":
            xv = args[0] if args else o.attrs["_x"]
            par = o.attrs["params"]
            a = X.as_arr(I, xv)
            r = X.matmul(I, xv, par, node, op="dot")
            if isinstance(r, (Arr, Num)):
                u = o.attrs["_y"].f.unit
                r = r.w(f=r.f.w(unit=u, deps=r.f.deps | o.f.deps))
                if isinstance(xv, Arr) and xv.cont == "frame" and isinstance(r, Arr):
                    r = r.w(cont="series")
            return r
        if name in ("summary",):
            return Opaque("summary")
        return X.unknown(I, ref, *args)
    if k == "set":
        if name in ("add", "update", "discard", "remove"):
            I.touch(ref, name, node)
            ob = I.st.mut(ref.oid)
            it = ob.attrs.get("items")
            if name == "add":
                if it is not None and len(it.items) < 12:
                    ob.attrs["items"] = Tup(list(it.items) + [args[0]])
                else:
                    ob.attrs.pop("items", None)
                ob.attrs["elem"] = jval(ob.attrs["elem"], args[0], Ctx()) if it is None or it.items else args[0]
            else:
                ob.attrs.pop("items", None)
            return NONE
        return X.unknown(I, ref, *args)
    if k == "rng":
        r = np_random(name)(I, args, kw, node)
        if isinstance(r, (Arr, Num)):
            r = r.w(f=r.f.w(deps=(r.f.deps - {"rng"}) | o.f.deps))
        return r
    if k == "partial" and name == "__call__":
        kk = dict(I.st.get(o.attrs["kw"].oid).d)
        kk.update(kw)
        return I.call(o.attrs["func"], list(o.attrs["args"].items) + list(args), kk, node)
    if k == "OptimizeResult" and name in ("get", "__getitem__"):
        kk = pykey(args[0])
        return o.attrs.get(kk, X.unknown(I, ref))
    if k == "Signature":
        return X.unknown(I, ref)
    if k == "StandIn":
        return X.unknown(I, ref, *args)
    return X.unknown(I, ref, *(list(args) + list(kw.values())))

"""Models of Python builtins and of the external libraries (numpy, scipy, pandas, sklearn, statsmodels, dcor)."""
import ast
import math
from statistics import NormalDist
from fractions import Fraction
from .poly import Poly, ONE, ZERO, compare as pcompare
from .values import *
from .state import jval, Ctx, mkunion, jstate, ssig
from .interp import pykey, const_of, neg, bind, AbsRaise, Infeasible

_NORM = {
    "pandas.core.frame.DataFrame": "pandas.DataFrame",
    "pandas.core.series.Series": "pandas.Series",
    "numpy.core": "numpy", "numpy.absolute": "numpy.abs", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
    "numpy.true_divide": "numpy.divide", "numpy.float64": "numpy.float64", "numpy.concat": "numpy.concatenate",
    "numpy.random.mtrand": "numpy.random",
    "sklearn.base.defaultdict": "collections.defaultdict",
    "scipy.stats.stats": "scipy.stats",
    "numpy.matrix": "numpy.matrix",
}


def norm_path(p):
    return _NORM.get(p, p)


# ------------------------------------------------------------------ helpers
def generic(p):
    return not any(s[0] in "k?" for s in p.syms())


def dyn(t=None):
    return Poly.sym("k%d" % (t.id if isinstance(t, Term) else uid()))


SELECT = set()
_FINITE = {"isnan", "isfinite", "isinf", "isna", "isnull", "notna", "notnull"}


def selected(mask):
    """number of entries a mask over data selects: any number is possible,
    unless the mask asks for missing values (data are finite)"""
    t = tt(mask)
    d = dyn(T("nz", t))
    todo, n = [t], 0
    while todo and n < 200:
        x = todo.pop()
        n += 1
        if isinstance(x, Term):
            if x.op in _FINITE:
                return d
            todo += [a for a in x.args if isinstance(a, Term)]
    SELECT.update(d.syms())
    return d


def size(a):
    if a.shape is None:
        return None
    r = ONE
    for d in a.shape:
        r = r * d
    return r


def tt(v):
    return v.f.term if v.f.term is not None else T("u", uid())


def terms(op, *vs):
    return T(op, *[tt(v) if isinstance(v, Val) else v for v in vs])


def alldeps(vals):
    d = NODEPS
    for v in vals:
        if v is not None:
            d = d | v.f.deps
    return d


def deep_deps(I, v, seen=None):
    """taint of a value including what it references"""
    if seen is None:
        seen = set()
    d = v.f.deps
    if isinstance(v, Tup):
        for x in v.items:
            d = d | deep_deps(I, x, seen)
    elif isinstance(v, Union):
        for x in v.opts:
            d = d | deep_deps(I, x, seen)
    elif isinstance(v, Seq) and v.elem is not None:
        d = d | deep_deps(I, v.elem, seen)
    elif isinstance(v, Ref):
        if v.oid in seen:
            return d
        seen.add(v.oid)
        o = I.st.heap.get(v.oid)
        if o is not None:
            if isinstance(o, ExtObj):
                d = d | o.f.deps
            for x in o.values():
                if x is not UNDEF:
                    d = d | deep_deps(I, x, seen)
    return d


def unknown(I, *vals):
    d = NODEPS
    r = NOROWS
    for v in vals:
        if v is None:
            continue
        d = d | deep_deps(I, v)
        if v.f.rows[0] != "none":
            r = UNKROWS
    return TopT(F(None, UNKROWS, d, T("u", uid())))


def minp(I, a, b, op=min):
    s = I.st.cmp(a, b)
    if 1 not in s:
        return a if op is min else b
    if -1 not in s:
        return b if op is min else a
    return dyn(T("min" if op is min else "max", *sorted((repr(a), repr(b)))))


def intnum(p, deps=NODEPS, I=None, npy=False):
    rows = NOROWS
    if I is not None and I.is_case(p):
        rows = ("inv", frozenset())
    return Num("int", poly=p, npy=npy, f=F(DIMLESS, rows, deps, T("dim", p)))


def topoly(v):
    if isinstance(v, Num):
        if v.poly is not None:
            return v.poly
        if v.c is not None and float(v.c) == int(v.c) if isinstance(v.c, (int, float)) and v.c == v.c and abs(v.c) < 1e15 else False:
            return Poly.const(int(v.c))
    if isinstance(v, Const) and isinstance(v.v, bool):
        return Poly.const(int(v.v))
    return None


def stack_items(I, items, node=None):
    """np.array of a list of values: adds a leading axis"""
    arrs = [as_arr(I, x) for x in items]
    if any(a is None for a in arrs):
        return None
    if not arrs:
        return Arr((ZERO,), dt="f", f=F(ANYUNIT, term=T("c", "[]")))
    sh = arrs[0].shape
    f = shift_rows(arrs[0].f, 1)
    lo, hi, dt = arrs[0].lo, arrs[0].hi, arrs[0].dt
    for a in arrs[1:]:
        if a.shape is None or sh is None or len(a.shape) != len(sh):
            if a.shape is not None and sh is not None:
                return Arr(None, dt="O", f=F(None, UNKROWS, alldeps(arrs)))
            sh = None
            break
        sh = tuple(x if x == y else dyn() for x, y in zip(sh, a.shape))
        g = shift_rows(a.f, 1)
        f = F(junit(f.unit, g.unit), jrows(f.rows, g.rows), f.deps | g.deps)
        lo = None if lo is None or a.lo is None else min(lo, a.lo)
        hi = None if hi is None or a.hi is None else max(hi, a.hi)
        dt = dt if dt == a.dt else ("f" if {dt, a.dt} <= {"f", "i", "b"} else "?")
    t = T("stack", *[tt(x) for x in items])
    if sh is None:
        return Arr(None, dt=dt, f=F(f.unit, UNKROWS if f.rows[0] != "none" else NOROWS, f.deps, t))
    return Arr((Poly.const(len(arrs)),) + sh, dt=dt, lo=lo, hi=hi, f=f.w(term=t))


def shift_rows(f, k):
    kind, ax = f.rows
    return f.w(rows=(kind, frozenset(a + k for a in ax)))


def as_arr(I, v):
    """array view of a value, or None when its structure is unknown"""
    if isinstance(v, Arr):
        return v
    if isinstance(v, Num):
        return Arr((), dt={"int": "i", "float": "f", "bool": "b"}.get(v.ity, "f"), lo=v.lo, hi=v.hi, f=v.f, bufs=NODEPS, vid=-1)
    if isinstance(v, Const):
        if isinstance(v.v, bool):
            return Arr((), dt="b", lo=int(v.v), hi=int(v.v), f=v.f, bufs=NODEPS, vid=-1)
        if isinstance(v.v, str):
            return Arr((), dt="s", f=v.f, bufs=NODEPS, vid=-1)
        return None
    if isinstance(v, Rng):
        n = v.b - v.a
        if I.st.cmp(n, ZERO) == {-1}:
            n = ZERO
        rows = ("ord", frozenset([0])) if I.is_case(n) else NOROWS
        a, b = v.a.cval(), v.b.cval()
        t = T("arangeP", v.a, v.b) if v.step == 1 else T("u", uid())
        if v.step != 1:
            n = dyn()
        return Arr((n,), dt="i", f=F(DIMLESS, rows, v.f.deps, t), lo=float(v.a.cval()) if a is not None else (0 if v.a.nonneg() else None))
    if isinstance(v, Tup):
        return stack_items(I, v.items)
    if isinstance(v, Seq):
        return stack_elem(I, v.elem, v.len)
    if isinstance(v, Ref):
        o = I.st.get(v.oid)
        if isinstance(o, ListObj):
            if o.items is not None:
                return stack_items(I, o.items)
            return stack_elem(I, o.elem, o.len)
    if isinstance(v, Union):
        arrs = [as_arr(I, x) for x in v.opts if x is not UNDEF]
        if arrs and all(a is not None for a in arrs):
            r = arrs[0]
            for a in arrs[1:]:
                r = jval(r, a, Ctx())
            return r if isinstance(r, Arr) else None
    return None


def stack_elem(I, elem, ln):
    if elem is None:
        return None
    a = as_arr(I, elem)
    if a is None:
        return None
    n = ln if ln is not None else dyn()
    f = shift_rows(a.f, 1)
    if I.is_case(n) and f.rows[0] not in ("none", "unk") and not f.rows[1]:
        pass
    t = T("tile0", tt(elem), repr(n))
    if a.shape is None:
        return Arr(None, dt=a.dt, f=f.w(rows=UNKROWS if f.rows[0] != "none" else NOROWS, term=t))
    return Arr((n,) + a.shape, dt=a.dt, lo=a.lo, hi=a.hi, f=f.w(term=t))


def scalar_or_arr(a, npy=True):
    """0-d result becomes a numpy scalar"""
    if a.shape == ():
        ity = {"i": "int", "f": "float", "b": "bool"}.get(a.dt, "num")
        c = a.lo if a.lo is not None and a.lo == a.hi and ity != "bool" else None
        if ity == "bool" and a.lo is not None and a.lo == a.hi:
            return Const(bool(a.lo), F(DIMLESS, a.f.rows, a.f.deps, T("c", repr(bool(a.lo)))))
        return Num(ity, c=c, lo=a.lo, hi=a.hi, npy=npy, f=a.f)
    return a


def bcast(I, shapes, node):
    R = max(len(s) for s in shapes)
    out = []
    for k in range(R):
        d = ONE
        for s in shapes:
            i = k - (R - len(s))
            if i < 0:
                continue
            e = s[i]
            if e == ONE or e == d:
                continue
            if d == ONE:
                d = e
            else:
                ge, gd = generic(e), generic(d)
                if ge and gd:
                    if 0 not in I.st.cmp(e, d) or True:
                        I.err("ValueError", "operands could not be broadcast together: %s" % " ".join(str(x) for x in shapes), node)
                elif ge:
                    d = e
        out.append(d)
    return tuple(out)


def rc(v):
    """label-carrying container rank"""
    return {"frame": 3, "series": 2, "mat": 1, "?": 1}.get(v.cont, 0)


def elementwise(I, node, vals, op, unit=None, dt=None, lo=None, hi=None, term=None, units_must_match=False, npy=None):
    arrs = [as_arr(I, v) for v in vals]
    if any(a is None for a in arrs):
        for v in vals:
            if isinstance(v, Const) and v.v is None:
                I.err("TypeError", "unsupported operand type 'NoneType'", node)
        return unknown(I, *vals)
    deps = alldeps(arrs)
    t = term or T(op, *[tt(v) for v in vals])
    if units_must_match:
        u = None
        us = [a.f.unit for a in arrs]
        if all(x is not None for x in us):
            u = ANYUNIT
            for x in us:
                j = junit(u, x)
                if j is None:
                    I.emit("unit-conflict", node, op=op, units=" vs ".join(ushow(z) for z in us))
                    u = None
                    break
                u = j
    else:
        u = unit
    if any(a.shape is None for a in arrs):
        rk = NOROWS if all(a.f.rows[0] == "none" for a in arrs) else UNKROWS
        return Arr(None, cont=max(arrs, key=rc).cont, dt=dt or "f", lo=lo, hi=hi, f=F(u, rk, deps, t))
    shape = bcast(I, [a.shape for a in arrs], node)
    R = len(shape)
    rows = NOROWS
    for a in arrs:
        k, ax = a.f.rows
        off = R - len(a.shape)
        if k == "idx":
            k = "ord"
        rows = jrows(rows, (k, frozenset(x + off for x in ax)))
    big = max(arrs, key=rc)
    cont = big.cont
    lab = big.lab
    labelled = [a for a in arrs if a.cont in ("frame", "series")]
    if len(labelled) > 1:
        labs = {(a.cont, a.lab) for a in labelled}
        if len({a.lab for a in labelled}) > 1:
            I.emit("label-align", node, labels=" / ".join(sorted(str(a.lab) for a in labelled)))
    if dt is None:
        dts = {a.dt for a in arrs}
        dt = "O" if "O" in dts else "f" if "f" in dts else ("i" if dts <= {"i", "b"} else "f")
    r = Arr(shape, cont=cont if cont != "nd" else "nd", dt=dt, lo=lo, hi=hi, f=F(u, rows, deps, t), lab=lab)
    if shape == () and all(not isinstance(v, Arr) for v in vals):
        n = any(isinstance(v, Num) and v.npy for v in vals) if npy is None else npy
        return scalar_or_arr(r, npy=n)
    return r


# interval arithmetic
def _iv(v):
    a, b = v.lo, v.hi
    return (a, b)


def iv_add(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])


def iv_neg(a):
    return (None if a[1] is None else -a[1], None if a[0] is None else -a[0])


def iv_mul(a, b):
    if None not in a and None not in b:
        ps = [x * y for x in a for y in b]
        ps = [p for p in ps if p == p]
        if not ps:
            return (None, None)
        return (min(ps), max(ps))
    if a == (0, 0) or b == (0, 0):
        return (0, 0)
    if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
        return (0, None)
    return (None, None)


def iv_div(a, b):
    if None not in b and (b[0] > 0 or b[1] < 0):
        return iv_mul(a, (1.0 / b[1], 1.0 / b[0]))
    if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
        if b[0] > 0 and a[1] is not None:
            return (0, a[1] / b[0])
        return (0, None)
    return (None, None)


def num_iv(v):
    if isinstance(v, Const):
        if isinstance(v.v, bool):
            return (int(v.v), int(v.v))
        return (None, None)
    if isinstance(v, (Num, Arr)):
        return (v.lo, v.hi)
    return (None, None)


_OPN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow", ast.FloorDiv: "floordiv",
        ast.Mod: "mod", ast.MatMult: "matmul", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor",
        ast.LShift: "shl", ast.RShift: "shr"}


def isnumlike(v):
    return isinstance(v, (Num, Arr, Rng)) or (isinstance(v, Const) and isinstance(v.v, bool))


def plain(v):
    """(known, python value) of a constant that goes into a text"""
    if isinstance(v, Const) and isinstance(v.v, (str, bool, type(None))):
        return True, v.v
    if isinstance(v, Num) and v.c is not None and v.ity == "int" and v.c == int(v.c):
        return True, int(v.c)
    if isinstance(v, Tup):
        vs = [plain(x) for x in v.items]
        return all(k for k, _ in vs), tuple(x for _, x in vs)
    return False, None


def text(s, *vs):
    """a constant text made from values"""
    return Const(s, F(DIMLESS, deps=alldeps(vs), term=T("c", repr(s))))


def binop(I, op, a, b, node):
    o = _OPN[type(op)]
    if o == "mod" and isinstance(a, Const) and isinstance(a.v, str):
        if isinstance(b, Union):
            return I.over_union(lambda x: binop(I, op, a, x, node), b)
        k, v = plain(b)
        if k:
            try:
                return text(a.v % v, a, b, *(b.items if isinstance(b, Tup) else ()))
            except (TypeError, ValueError):
                pass
    # strings
    if isinstance(a, (Str,)) or isinstance(b, (Str,)) or (isinstance(a, Const) and isinstance(a.v, str)) or (isinstance(b, Const) and isinstance(b.v, str)):
        if o == "add":
            if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str):
                return text(a.v + b.v, a, b)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (Str, Const)) and (isinstance(y, (Num, Tup)) or isinstance(y, Const) and not isinstance(y.v, str)):
                    if isinstance(x, Str) or isinstance(x.v, str):
                        I.err("TypeError", "can only concatenate str to str", node)
            return Str(F(deps=a.f.deps | b.f.deps))
        return Str(F(deps=a.f.deps | b.f.deps))
    # sequences
    if isinstance(a, Tup) and isinstance(b, Tup) and o == "add":
        return Tup(a.items + b.items)
    if isinstance(a, Ref) and isinstance(b, Ref) and o == "add":
        x, y = I.st.get(a.oid), I.st.get(b.oid)
        if isinstance(x, ListObj) and isinstance(y, ListObj):
            if x.items is not None and y.items is not None:
                return I.new_list(x.items + y.items, node=node)
            e = None
            for v in x.values() + y.values():
                e = v if e is None else jval(e, v, Ctx())
            return I.new_list(None, e, None, node=node)
    if isinstance(a, Ref) and isinstance(b, Ref) and o == "or":
        x, y = I.st.get(a.oid), I.st.get(b.oid)
        if isinstance(x, DictObj) and isinstance(y, DictObj):
            r = I.new_dict(x.d, node=node)
            dict_update(I, r, b)
            return r
    if o == "mul":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Ref, Tup)) and isinstance(y, Num):
                its = I.exact_items(x)
                if isinstance(x, Ref) and not isinstance(I.st.get(x.oid), ListObj):
                    continue
                if its is not None and y.c is not None and len(its) * int(y.c) <= 40:
                    return Tup(its * int(y.c)) if isinstance(x, Tup) else I.new_list(its * int(y.c), node=node)
                e = None
                for v in its or I.st.get(x.oid).values():
                    e = v if e is None else jval(e, v, Ctx())
                p = topoly(y)
                ln = p * len(its) if p is not None and its is not None else None
                return I.new_list(None, e, ln, node=node)
    for x in (a, b):
        if isinstance(x, Const) and x.v is None:
            I.err("TypeError", "unsupported operand type(s): 'NoneType'", node)
        if isinstance(x, Ref) and isinstance(I.st.get(x.oid), (DictObj, Obj)):
            if isinstance(I.st.get(x.oid), DictObj) and isnumlike(b if x is a else a):
                I.err("TypeError", "unsupported operand type(s): dict", node)
            return unknown(I, a, b)
    if o == "matmul":
        return matmul(I, a, b, node)
    return arith(I, o, a, b, node)


def arith(I, o, a, b, node):
    ta, tb = tt(a), tt(b)
    # exact integer / float constants
    if isinstance(a, Num) and isinstance(b, Num):
        r = num_arith(I, o, a, b, node)
        if r is not None:
            return r
    ia, ib = num_iv(a), num_iv(b)
    ua, ub = a.f.unit, b.f.unit
    if o in ("add", "sub"):
        iv = iv_add(ia, ib if o == "add" else iv_neg(ib))
        term = None
        return elementwise(I, node, [a, b], o, lo=iv[0], hi=iv[1], units_must_match=True, dt=_numdt(I, a, b))
    if o == "mul":
        iv = iv_mul(ia, ib)
        if ta is tb and iv[0] is None:
            iv = (0, None)
        return elementwise(I, node, [a, b], o, unit=umul(ua, ub), lo=iv[0], hi=iv[1], dt=_numdt(I, a, b))
    if o == "div":
        iv = iv_div(ia, ib)
        if ib == (0, 0) and not (isinstance(b, Num) and not b.npy and not isinstance(a, Arr)):
            I.emit("div-zero", node)
        if "divs" in I.hooks:
            I.emit("div", node, tid=getattr(tb, "id", None))
            I.hooks["divs"].setdefault(getattr(tb, "id", None), tb)
        return elementwise(I, node, [a, b], o, unit=umul(ua, ub, -1), dt="f", lo=iv[0], hi=iv[1])
    if o == "pow":
        c = b.c if isinstance(b, Num) else None
        if c is not None:
            u = upow(ua, c) if ua is not None else None
            lo = 0 if (c % 2 == 0 or (ia[0] is not None and ia[0] >= 0)) else None
            hi = None
            if ia[0] is not None and ia[0] >= 0 and ia[1] is not None and c >= 0:
                lo, hi = ia[0] ** c, ia[1] ** c
            return elementwise(I, node, [a, b], o, unit=u, lo=lo, hi=hi, dt=_numdt(I, a, b))
        u = DIMLESS if ua == DIMLESS and ub == DIMLESS else None
        return elementwise(I, node, [a, b], o, unit=u, lo=0 if ia[0] is not None and ia[0] >= 0 else None)
    if o in ("and", "or", "xor"):
        return logical(I, o, a, b, node)
    if o in ("floordiv", "mod"):
        return elementwise(I, node, [a, b], o, unit=umul(ua, ub, -1) if o == "floordiv" else ua, dt=_numdt(I, a, b), lo=0 if o == "floordiv" and ia[0] is not None and ia[0] >= 0 and ib[0] is not None and ib[0] >= 0 else None)
    return elementwise(I, node, [a, b], o)


def _numdt(I, a, b):
    return None


def num_arith(I, o, a, b, node):
    npy = a.npy or b.npy
    deps = a.f.deps | b.f.deps
    rows = jrows(a.f.rows, b.f.rows)
    if a.c is not None and b.c is not None and o not in ("and", "or", "xor"):
        try:
            x, y = a.c, b.c
            c = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "div": lambda: x / y,
                 "pow": lambda: x ** y if abs(y) < 64 and abs(x) < 1e6 else None, "floordiv": lambda: x // y, "mod": lambda: x % y}.get(o, lambda: None)()
        except ZeroDivisionError:
            if not npy:
                I.err("ZeroDivisionError", "division by zero", node)
            c = None
        except Exception:
            c = None
        if isinstance(c, complex):
            c = None
        if c is not None:
            u = {"add": lambda: junit(a.f.unit, b.f.unit) if a.f.unit is not None and b.f.unit is not None else None,
                 "sub": lambda: junit(a.f.unit, b.f.unit) if a.f.unit is not None and b.f.unit is not None else None,
                 "mul": lambda: umul(a.f.unit, b.f.unit), "div": lambda: umul(a.f.unit, b.f.unit, -1)}.get(o, lambda: DIMLESS if a.f.unit in (DIMLESS, ANYUNIT) else None)()
            ct = all(isinstance(v.f.term, Term) and v.f.term.op == "c" for v in (a, b))
            return Num("int" if isinstance(c, int) else "float", c=c, npy=npy,
                       f=F(u, rows, deps, T("c", repr(c)) if ct else T(o, tt(a), tt(b))))
    if o in ("add", "sub", "mul") and a.poly is not None and b.poly is not None and a.ity == "int" and b.ity == "int":
        p = a.poly + b.poly if o == "add" else a.poly - b.poly if o == "sub" else a.poly * b.poly
        return Num("int", poly=p, npy=npy, f=F(DIMLESS, rows, deps, T("dim", p)))
    if o == "pow" and a.poly is not None and b.c in (1, 2, 3):
        p = a.poly ** b.c
        return Num("int", poly=p, npy=npy, f=F(DIMLESS, rows, deps, T("dim", p)))
    if o == "div" and a.poly is not None and isinstance(b.c, int) and b.c:
        p = a.poly.divconst(b.c)
        return Num("float", poly=p, npy=npy, f=F(DIMLESS, rows, deps, T("dim", p)))
    return None


def logical(I, o, a, b, node):
    if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, bool) and isinstance(b.v, bool):
        v = {"and": a.v & b.v, "or": a.v | b.v, "xor": a.v ^ b.v}[o]
        return Const(v, F(DIMLESS, NOROWS, a.f.deps | b.f.deps, T("c", repr(v))))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Const) and isinstance(x.v, bool) and isinstance(y, Num):
            if o == "and":
                return y if x.v else x
            if o == "or":
                return x if x.v else y
    if isinstance(a, Num) and isinstance(b, Num) and a.ity == b.ity == "bool":
        fa, fb = I.fact_of(tt(a)), I.fact_of(tt(b))
        if o == "and":
            if fa is False or fb is False:
                return Const(False, F(DIMLESS, NOROWS, a.f.deps | b.f.deps, T("c", "False")))
        if o == "or" and (fa or fb):
            return Const(True, F(DIMLESS, NOROWS, a.f.deps | b.f.deps, T("c", "True")))
    return elementwise(I, node, [a, b], o, unit=DIMLESS, dt="b", lo=0, hi=1)


def unop(I, op, v, node):
    if isinstance(v, Union):
        return I.over_union(lambda x: unop(I, op, x, node), v)
    if isinstance(op, ast.USub):
        if isinstance(v, Num) and v.c is not None:
            return Num(v.ity, c=-v.c, npy=v.npy, f=v.f.w(term=T("c", repr(-v.c)) if v.f.term is not None and v.f.term.op == "c" else T("negate", tt(v))))
        if isinstance(v, Num) and v.poly is not None:
            return Num(v.ity, poly=-v.poly, npy=v.npy, f=v.f.w(term=T("dim", -v.poly)))
        if isinstance(v, Const) and isinstance(v.v, bool):
            return num(-int(v.v))
        iv = iv_neg(num_iv(v))
        return elementwise(I, node, [v], "negate", unit=v.f.unit, lo=iv[0], hi=iv[1])
    if isinstance(op, ast.UAdd):
        return v
    if isinstance(op, ast.Invert):
        return elementwise(I, node, [v], "not", unit=DIMLESS, dt="b", lo=0, hi=1)
    return unknown(I, v)


# ------------------------------------------------------------------ comparison
def type_of(I, v):
    if isinstance(v, Arr):
        return Ext({"nd": "numpy.ndarray", "frame": "pandas.DataFrame", "series": "pandas.Series", "mat": "numpy.matrix", "index": "pandas.Index"}.get(v.cont, "?"))
    if isinstance(v, Num):
        if v.npy:
            return Ext({"int": "numpy.int64", "float": "numpy.float64", "bool": "numpy.bool"}.get(v.ity, "?"))
        return Ext({"int": "builtins.int", "float": "builtins.float", "bool": "builtins.bool"}.get(v.ity, "?"))
    if isinstance(v, Const):
        return Ext("builtins." + type(v.v).__name__)
    if isinstance(v, Str):
        return Ext("builtins.str")
    if isinstance(v, Tup):
        return Ext("builtins.tuple")
    if isinstance(v, Rng):
        return Ext("builtins.range")
    if isinstance(v, Ref):
        o = I.st.get(v.oid)
        if isinstance(o, ListObj):
            return Ext("builtins.list")
        if isinstance(o, DictObj):
            return Ext("builtins.dict")
        if isinstance(o, Obj):
            return o.cls
        return Ext(o.kind)
    if isinstance(v, Func):
        return Ext("types.FunctionType")
    if isinstance(v, Cls):
        return Ext("builtins.type")
    return None


def boolv(b, deps=NODEPS):
    return Const(b, F(DIMLESS, NOROWS, deps, T("c", repr(b))))


def unkbool(*vs, term=None):
    rows = NOROWS
    for v in vs:
        rows = jrows(rows, allrows(v.f.rows))
    return Num("bool", lo=0, hi=1, f=F(DIMLESS, rows, alldeps(vs), term or T("u", uid())))


def eqv(I, a, b):
    """True/False/None equality of two non-array values"""
    if isinstance(a, Const) and isinstance(b, Const):
        return a.v == b.v
    if isinstance(a, Num) and isinstance(b, Num):
        if a.c is not None and b.c is not None:
            return a.c == b.c
        if a.poly is not None and b.poly is not None:
            s = I.st.cmp(a.poly, b.poly)
            if s == {0}:
                return True
            if 0 not in s:
                return False
            return None
        if a.lo is not None and b.hi is not None and a.lo > b.hi or a.hi is not None and b.lo is not None and a.hi < b.lo:
            return False
        return None
    if isinstance(a, Const) and isinstance(b, Num) or isinstance(b, Const) and isinstance(a, Num):
        c, n = (a, b) if isinstance(a, Const) else (b, a)
        if isinstance(c.v, bool):
            if n.c is not None:
                return n.c == c.v
            if n.ity == "bool":
                return None
            return None
        return False
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return False
        rs = [eqv(I, x, y) for x, y in zip(a.items, b.items)]
        if all(r is True for r in rs):
            return True
        if any(r is False for r in rs):
            return False
        return None
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.oid == b.oid:
            return True
        x, y = I.st.get(a.oid), I.st.get(b.oid)
        if isinstance(x, ListObj) and isinstance(y, ListObj) and x.items is not None and y.items is not None:
            return eqv(I, Tup(x.items), Tup(y.items))
        if type(x) is not type(y):
            return False
        return None
    if isinstance(a, (Cls, Ext, Func, ModV)) and isinstance(b, (Cls, Ext, Func, ModV)):
        if isinstance(a, Ext) and isinstance(b, Ext) and "?" in (a.path, b.path):
            return None
        return a.key() == b.key()
    if isinstance(a, Opaque) and isinstance(b, Opaque) and str(a.tag).startswith("dtype:") and str(b.tag).startswith("dtype:"):
        if "?" in (a.tag[6:], b.tag[6:]):
            return None
        return a.tag == b.tag
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Opaque) and str(x.tag).startswith("dtype:") and isinstance(y, Const) and isinstance(y.v, str):
            d = dtype_code(y)
            return None if "?" in (d, x.tag[6:]) else d == x.tag[6:]
        if isinstance(x, Opaque) and str(x.tag).startswith("dtype:") and isinstance(y, Ext):
            d = dtype_code(y)
            return None if "?" in (d, x.tag[6:]) else d == x.tag[6:]
    if isinstance(a, (TopT, Opaque, Union, Seq, Str, Arr)) or isinstance(b, (TopT, Opaque, Union, Seq, Str, Arr)):
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag and str(a.tag).startswith("opt:"):
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Str) and (isinstance(y, (Num, Tup, Func, Cls)) or isinstance(y, Const) and not isinstance(y.v, str)):
                return False
        return None
    return False


_CMP = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.Gt: "gt", ast.LtE: "le", ast.GtE: "ge"}


def cmpterm(o, a, b):
    if o == "lt":
        return T("lt", a, b)
    if o == "gt":
        return T("lt", b, a)
    if o == "ge":
        return neg(T("lt", a, b))
    if o == "le":
        return neg(T("lt", b, a))
    x, y = sorted((a, b), key=lambda z: z.id)
    e = T("eq", x, y)
    return e if o == "eq" else neg(e)


def iv_cmp(o, x, y):
    """outcome of a comparison that the intervals alone decide"""
    lt = True if x[1] is not None and y[0] is not None and x[1] < y[0] else False if x[0] is not None and y[1] is not None and x[0] >= y[1] else None
    gt = True if x[0] is not None and y[1] is not None and x[0] > y[1] else False if x[1] is not None and y[0] is not None and x[1] <= y[0] else None
    if o == "lt":
        return lt
    if o == "gt":
        return gt
    if o == "le":
        return None if gt is None else not gt
    if o == "ge":
        return None if lt is None else not lt
    eq = False if lt or gt else True if lt is False and gt is False else None
    return eq if o == "eq" or eq is None else not eq


def compare(I, op, a, b, node):
    if isinstance(a, Union) or isinstance(b, Union):
        return I.over_union(lambda x, y: compare(I, op, x, y, node), a, b)
    deps = a.f.deps | b.f.deps
    if isinstance(op, (ast.Is, ast.IsNot)):
        inv = isinstance(op, ast.IsNot)
        r = None
        if isinstance(a, Const) or isinstance(b, Const):
            c, x = (a, b) if isinstance(a, Const) else (b, a)
            if isinstance(x, Const):
                r = (x.v is c.v) or (x.v == c.v and type(x.v) is type(c.v))
            elif isinstance(x, (TopT, Opaque)):
                r = False if isinstance(x, Opaque) and c.v is None and not str(x.tag).startswith("maybe") else None
            elif isinstance(x, Num) and x.ity == "bool" and isinstance(c.v, bool) and not x.npy:
                r = None
            else:
                r = False
        else:
            r = eqv(I, a, b)
            if isinstance(a, Arr) and isinstance(b, Arr):
                r = True if a.vid == b.vid else None
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = a.oid == b.oid
        if r is None:
            t = T("is", *sorted((tt(a), tt(b)), key=lambda z: z.id))
            return unkbool(a, b, term=neg(t) if inv else t)
        return boolv(r != inv, deps)
    if isinstance(op, (ast.In, ast.NotIn)):
        r, d2, alts = contains(I, a, b)
        deps = deps | d2
        if r is None:
            t = T("in", tt(a), T("u", uid()))
            x = unkbool(a, b, term=t)
            x = x.w(f=x.f.w(deps=deps))
            return x.w(f=x.f.w(term=neg(x.f.term))) if isinstance(op, ast.NotIn) else x
        return boolv(r != isinstance(op, ast.NotIn), deps)
    o = _CMP[type(op)]
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (Ref, Tup)) and (isinstance(y, Arr) or isinstance(y, Num) and y.npy):
            z = as_arr(I, x)
            if z is not None and not (isinstance(x, Ref) and not isinstance(I.st.get(x.oid), ListObj)):
                a, b = (z, b) if x is a else (a, z)
                break
    if isinstance(a, Arr) or isinstance(b, Arr):
        other = b if isinstance(a, Arr) else a
        ar = a if isinstance(a, Arr) else b
        if isinstance(other, Const) and other.v is None:
            if o in ("eq", "ne"):
                v = 1 if o == "ne" else 0
                return Arr(ar.shape, dt="b", lo=v, hi=v, f=F(DIMLESS, NOROWS, deps, T("c", "const%d" % v)))
            I.err("TypeError", "comparison with None", node)
        if isinstance(other, (Const, Str)) and not (isinstance(other, Const) and isinstance(other.v, bool)):
            if ar.dt in ("f", "i", "b") and o in ("eq", "ne"):
                v = 1 if o == "ne" else 0
                return Arr(ar.shape, dt="b", lo=v, hi=v, f=F(DIMLESS, NOROWS, deps, T("c", "const%d" % v)))
            return Arr(ar.shape, dt="b", lo=0, hi=1, f=F(DIMLESS, ar.f.rows, deps, T("u", uid())))
        lo, hi = 0, 1
        ia, ib = num_iv(a), num_iv(b)
        if tt(a) is tt(b):
            lo = hi = 1 if o in ("eq", "le", "ge") else 0
        else:
            d = iv_cmp(o, ia, ib)
            if d is not None:
                lo = hi = int(d)
        if a.f.unit is not None and b.f.unit is not None and junit(a.f.unit, b.f.unit) is None:
            I.emit("unit-compare", node, units=ushow(a.f.unit) + " vs " + ushow(b.f.unit))
        ta, tb = tt(a), tt(b)
        return elementwise(I, node, [a, b], o, unit=DIMLESS, dt="b", lo=lo, hi=hi, term=cmpterm(o, ta, tb))
    if isinstance(a, Num) and isinstance(b, Num):
        if a.f.unit is not None and b.f.unit is not None and junit(a.f.unit, b.f.unit) is None:
            I.emit("unit-compare", node, units=ushow(a.f.unit) + " vs " + ushow(b.f.unit))
        if a.c is not None and b.c is not None:
            x, y = a.c, b.c
            r = {"eq": x == y, "ne": x != y, "lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y}[o]
            return boolv(r, deps)
        if a.poly is not None and b.poly is not None:
            s = I.st.cmp(a.poly, b.poly)
            good = {"eq": {0}, "ne": {-1, 1}, "lt": {-1}, "gt": {1}, "le": {-1, 0}, "ge": {0, 1}}[o]
            if s <= good:
                return boolv(True, deps)
            if not (s & good):
                return boolv(False, deps)
        elif None not in (a.lo, b.hi) or None not in (a.hi, b.lo):
            if a.lo is not None and b.hi is not None:
                if a.lo > b.hi:
                    return boolv(o in ("gt", "ge", "ne"), deps)
                if a.lo == b.hi and o == "lt":
                    return boolv(False, deps)
                if a.lo == b.hi and o == "ge":
                    return boolv(True, deps)
            if a.hi is not None and b.lo is not None:
                if a.hi < b.lo:
                    return boolv(o in ("lt", "le", "ne"), deps)
                if a.hi == b.lo and o == "gt":
                    return boolv(False, deps)
                if a.hi == b.lo and o == "le":
                    return boolv(True, deps)
        t = cmpterm(o, numterm(a), numterm(b))
        fct = I.fact_of(t)
        if fct is not None:
            return boolv(fct, deps)
        return unkbool(a, b, term=t)
    if o in ("eq", "ne"):
        r = eqv(I, a, b)
        if r is None:
            t = T("eq", *sorted((tt(a), tt(b)), key=lambda z: z.id))
            return unkbool(a, b, term=t if o == "eq" else neg(t))
        return boolv(r == (o == "eq"), deps)
    # ordering of non numbers
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Const) and (x.v is None or isinstance(x.v, str)) and isinstance(y, (Num, Tup)):
            I.err("TypeError", "'%s' not supported between these types" % o, node)
        if isinstance(x, Str) and isinstance(y, Num):
            I.err("TypeError", "'%s' not supported between str and number" % o, node)
        if isinstance(x, Const) and isinstance(x.v, bool) and isinstance(y, Num):
            return compare(I, op, num(int(a.v)) if a is x else a, num(int(b.v)) if b is x else b, node)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, TopT) and isinstance(y, (Num, TopT, Opaque)):
            # numbers or arrays: a truth value or an array of them
            return TopT(F(DIMLESS, jrows(allrows(a.f.rows), allrows(b.f.rows)), deps, cmpterm(o, tt(a), tt(b))))
    if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str):
        r = {"lt": a.v < b.v, "gt": a.v > b.v, "le": a.v <= b.v, "ge": a.v >= b.v}[o]
        return boolv(r, deps)
    return unkbool(a, b)


def numterm(n):
    if n.poly is not None and n.ity == "int":
        return T("dim", n.poly)
    return tt(n)


def contains(I, a, b):
    its = I.exact_items(b)
    if isinstance(b, Const) and isinstance(b.v, str) and isinstance(a, Const) and isinstance(a.v, str):
        return a.v in b.v, NODEPS, None
    if isinstance(b, Ref):
        o = I.st.get(b.oid)
        if isinstance(o, DictObj):
            k = pykey(a)
            if k is None:
                return None, NODEPS, None
            if k in o.d:
                v = o.d[k]
                if isinstance(v, Union) and UNDEF in v.opts:
                    return None, NODEPS, None
                return True, NODEPS, None
            return (None if o.open else False), NODEPS, None
        if isinstance(o, ExtObj) and o.kind == "set":
            it = o.attrs.get("items")
            its = list(it.items) if it is not None else None
        if isinstance(o, ListObj):
            deps = alldeps(o.values())
        else:
            deps = NODEPS
    else:
        deps = alldeps(its) if its else NODEPS
    if its is None:
        return None, deps, None
    if not its:
        return False, deps, None
    rs = []
    for x in its:
        if isinstance(a, Arr) or isinstance(x, Arr):
            rs.append(None)
        elif isinstance(x, Union):
            rs.append(None)
        else:
            rs.append(eqv(I, a, x))
    if any(r is True for r in rs):
        return True, deps, None
    if all(r is False for r in rs):
        return False, deps, None
    return None, deps, None


def dtype_code(v):
    """abstract dtype of a dtype argument"""
    if v is None:
        return None
    if isinstance(v, Ext):
        n = v.path.rpartition(".")[2]
        return {"float": "f", "float64": "f", "float32": "f", "double": "f", "int": "i", "int64": "i", "int32": "i", "intp": "i", "bool": "b", "bool_": "b", "object": "O", "object_": "O", "str": "s", "longdouble": "f", "complex": "c", "complex128": "c"}.get(n, "?")
    if isinstance(v, Const) and isinstance(v.v, str):
        s = v.v
        if s in ("O", "object"):
            return "O"
        if s.startswith(("float", "f", "d")):
            return "f"
        if s.startswith(("int", "i", "u")):
            return "i"
        if s.startswith(("bool", "b", "?")):
            return "b"
        return "?"
    if isinstance(v, Opaque) and str(v.tag).startswith("dtype:"):
        return v.tag[6:]
    return "?"


# ------------------------------------------------------------------ matmul, reshape, index
def matmul(I, a, b, node, op="matmul"):
    x, y = as_arr(I, a), as_arr(I, b)
    if x is None or y is None:
        for v in (a, b):
            if isinstance(v, Const):
                I.err("TypeError", "matmul of a non-array", node)
        return unknown(I, a, b)
    deps = x.f.deps | y.f.deps
    u = umul(x.f.unit, y.f.unit)
    t = T("matmul", tt(a), tt(b))
    cont = "nd"
    if op == "matmul" and (x.cont == "frame" or y.cont == "frame"):
        cont = "frame"
    if x.shape is None or y.shape is None:
        rk = NOROWS if x.f.rows[0] == y.f.rows[0] == "none" else UNKROWS
        return Arr(None, cont, f=F(u, rk, deps, t))
    if op == "dot" and (x.shape == () or y.shape == ()):
        return arith(I, "mul", a, b, node)
    if x.shape == () or y.shape == ():
        I.err("ValueError", "matmul: input operand does not have enough dimensions", node)
    if len(x.shape) > 2 or len(y.shape) > 2:
        return Arr(None, cont, f=F(u, UNKROWS, deps, t))
    ca, cb = len(x.shape) - 1, (0 if len(y.shape) == 1 else len(y.shape) - 2)
    da, db = x.shape[ca], y.shape[cb]
    if da != db and generic(da) and generic(db):
        I.err("ValueError", "matmul: dimensions %s and %s do not agree (shapes %s and %s)" % (da, db, x.shape, y.shape), node)
    shape = x.shape[:ca] + tuple(d for i, d in enumerate(y.shape) if i != cb)
    rows = contract_rows(I, x, ca, y, cb, len(x.shape) - 1)
    lo = 0 if x.lo is not None and x.lo >= 0 and y.lo is not None and y.lo >= 0 else None
    r = Arr(shape, cont, dt="f", lo=lo, f=F(u, rows, deps, t))
    return scalar_or_arr(r)


def contract_rows(I, x, ca, y, cb, off):
    kx, ax = x.f.rows
    ky, ay = y.f.rows
    if kx == "none" and ky == "none":
        return NOROWS
    if "unk" in (kx, ky) and "ord" not in (kx, ky):
        return UNKROWS
    if "ord" in (kx, ky) or "idx" in (kx, ky):
        return ("ord", frozenset())
    rx = frozenset(a for a in ax if a != ca)
    ry = frozenset((a if a < cb else a - 1) + off for a in ay if a != cb)
    cx, cy = ca in ax, cb in ay
    rest = rx | ry
    if cx or cy:
        # summation over the cases
        if cx != cy:
            other = y if cx else x
            oaxis = cb if cx else ca
            # the other factor must be constant along the case axis
            if other.f.rows[0] == "none" and not constant_like(other):
                return UNKROWS
        return ("equi", rest) if rest else ("inv", frozenset())
    k = jrows((kx, rx), (ky, ry))
    return k


def constant_like(a):
    t = a.f.term
    return t is not None and (t.op in ("ones", "zeros", "full", "tile0", "c") or a.lo is not None and a.lo == a.hi)


def infer_reshape(I, total_dims, new, node):
    """new: list of Poly or None for -1; returns list of Poly"""
    tot = ONE
    for d in total_dims:
        tot = tot * d
    if None in new:
        rest = list(total_dims)
        div = ONE
        for d in new:
            if d is None or d == ONE:
                continue
            if d in rest:
                rest.remove(d)
            else:
                div = div * d
        r = ONE
        for d in rest:
            r = r * d
        c = div.cval()
        if c == 1:
            m = r
        elif c:
            q = r.divconst(c)
            if all(v.denominator == 1 for v in q.t.values()):
                m = q
            else:
                if r.is_const():
                    I.err("ValueError", "cannot reshape array of size %s into shape %s" % (tot, new), node)
                m = dyn()
        else:
            m = polydiv(r, div)
            if m is None:
                m = dyn()
        return [m if d is None else d for d in new]
    p = ONE
    for d in new:
        p = p * d
    if p != tot and generic(p) and generic(tot):
        I.err("ValueError", "cannot reshape array of size %s into shape %s" % (tot, tuple(new)), node)
    return list(new)


def polydiv(a, b):
    """exact division of polynomials, or None"""
    if b == ZERO:
        return None
    q = ZERO
    r = a
    lead = lambda p: max(p.t.items(), key=lambda kv: (sum(e for _, e in kv[0]), kv[0]))
    lb, cb = lead(b)
    for _ in range(20):
        if r == ZERO:
            return q
        lr, cr = lead(r)
        d = dict(lr)
        for s, e in lb:
            d[s] = d.get(s, 0) - e
            if d[s] < 0:
                return None
            if d[s] == 0:
                del d[s]
        m = Poly({tuple(sorted(d.items())): cr / cb})
        q = q + m
        r = r - m * b
    return None


def reshape(I, a, dims, node, order=None, copy=False):
    """dims: list of Val"""
    new = []
    for d in dims:
        p = topoly(d)
        if p is None:
            p = dyn(numterm(d) if isinstance(d, Num) else None)
            new.append(p)
        elif p == Poly.const(-1):
            new.append(None)
        else:
            new.append(p)
    deps = alldeps(dims) | a.f.deps
    kw = dict(cont="nd", dt=a.dt, lo=a.lo, hi=a.hi, bufs=a.bufs)
    if a.cont == "mat":
        kw["cont"] = "mat"
    if copy:
        kw.pop("bufs")
    if a.shape is None:
        sh = tuple(dyn() if d is None else d for d in new)
        return Arr(sh, f=a.f.w(deps=deps, rows=a.f.rows if a.f.rows[0] in ("none",) else UNKROWS), **kw)
    if a.shape == ():
        a = a.w(shape=(ONE,))
    sh = tuple(infer_reshape(I, a.shape, new, node))
    k, ax = a.f.rows
    o1 = [(i, d) for i, d in enumerate(a.shape) if d != ONE]
    n1 = [(i, d) for i, d in enumerate(sh) if d != ONE]
    term = a.f.term
    if [d for _, d in o1] == [d for _, d in n1]:
        mp = {i: j for (i, _), (j, _) in zip(o1, n1)}
        # case axis of extent one keeps its meaning by position
        nax = set()
        bad = False
        for x in ax:
            if x in mp:
                nax.add(mp[x])
            else:
                free = [j for j, d in enumerate(sh) if d == ONE and j not in mp.values()]
                if free:
                    nax.add(free[0])
        rows = (k, frozenset(nax))
        term = laid(a, sh)
    elif not ax:
        rows = (k, ax)
        term = T("reshape", tt(a), repr(sh), str(order))
    else:
        term = T("reshape", tt(a), repr(sh), str(order))
        if len(n1) <= 1:
            rows = ("equi" if k in ("pt", "equi") else k, frozenset([n1[0][0] if n1 else 0]))
        else:
            # splitting a leading case axis etc.
            rows = UNKROWS
            if len(o1) == 1 and len(n1) == 2:
                rows = UNKROWS
    return Arr(sh, f=a.f.w(rows=rows, deps=deps, term=term), **kw)


def laid(a, sh):
    """term of the same numbers laid out in another shape"""
    t = a.f.term
    if t is not None and t.op == "row":
        t = t.args[0]
    if t is not None and a.shape is not None and len(a.shape) == 1 and len(sh) == 2 and sh[0] == ONE and sh[1] != ONE and t.op != "T":
        t = T("row", t)
    return t


def transpose(I, a, axes=None):
    if a.shape is None:
        return a.w(vid=uid(), f=a.f.w(term=T("T", tt(a)), rows=UNKROWS if a.f.rows[0] != "none" else NOROWS))
    R = len(a.shape)
    t = a.f.term
    nt = t.args[0] if t is not None and t.op in ("T", "row") else (t if R < 2 else T("T", tt(a)))
    perm = list(range(R))[::-1] if axes is None else axes
    inv = {p: i for i, p in enumerate(perm)}
    k, ax = a.f.rows
    return a.w(vid=uid() if R > 1 else a.vid, shape=tuple(a.shape[p] for p in perm), f=a.f.w(rows=(k, frozenset(inv[x] for x in ax if x in inv)), term=nt))


def parse_idx(I, idx):
    if isinstance(idx, Tup):
        return list(idx.items)
    return [idx]


def slice_len(I, s, d):
    """(length, full?, exactly known) of slice s over dimension d"""
    st = s.s
    step = 1
    if isinstance(st, Num) and st.c is not None:
        step = int(st.c)
    elif not (isinstance(st, Const) and st.v is None):
        return dyn(), False
    none = lambda v: isinstance(v, Const) and v.v is None
    if step == -1 and none(s.a) and none(s.b):
        return d, "rev"
    if step != 1:
        return dyn(), False
    a = ZERO if none(s.a) else topoly(s.a)
    b = d if none(s.b) else topoly(s.b)
    if a is None or b is None:
        t = T("slice", tt(s.a) if not none(s.a) else "n", tt(s.b) if not none(s.b) else "n", repr(d))
        return dyn(t), False
    ca, cb = a.cval(), b.cval()
    if ca is not None and ca < 0:
        a = d + a
        if I.st.cmp(a, ZERO) == {-1}:
            a = ZERO
    if cb is not None and cb < 0:
        b = d + b
    sb = I.st.cmp(b, d)
    if -1 not in sb:
        b = d
    elif 1 in sb:
        return dyn(T("slice", repr(a), repr(b), repr(d))), False
    if a == ZERO and b == d:
        return d, True
    l = b - a
    sg = I.st.cmp(l, ZERO)
    if -1 in sg:
        if sg == {-1}:
            return ZERO, False
        # lower bound may exceed the upper one only in degenerate cases
        return (l, False) if generic(l) else (dyn(), False)
    return l, False


def sorting_index(I, i):
    """is the index array (part of) the result of argsort along the cases?"""
    t = i.f.term
    src = getattr(I, "idxsrc", {})
    while t is not None:
        if t.id in src:
            return t.op == "argsort" and src[t.id] == "ord"
        t = t.args[0] if t.op in ("idx", "copy", "flip") and t.args and hasattr(t.args[0], "op") else None
    return False


def index(I, a, idx, node, view=True):
    if a.cont in ("frame", "series") and a.cont == "frame":
        return frame_index(I, a, idx, node)
    deps = a.f.deps | alldeps([i for i in idx if not isinstance(i, Slice)])
    for i in idx:
        if isinstance(i, Slice):
            deps = deps | alldeps([i.a, i.b, i.s])
    t = T("idx", tt(a), *[idxterm(i, I) for i in idx])
    if a.shape is None:
        if a.f.rows[0] == "none" and all(i.f.rows[0] == "none" for i in idx if not isinstance(i, Slice)):
            return TopT(F(a.f.unit, NOROWS, deps, t))
        return TopT(F(a.f.unit, UNKROWS, deps, t))
    # ellipsis
    n_ax = sum(1 for i in idx if not (isinstance(i, Const) and i.v is None) and not (isinstance(i, Const) and i.v is Ellipsis))
    full = []
    for i in idx:
        if isinstance(i, Const) and i.v is Ellipsis:
            full += [Slice(Const(None), Const(None), Const(None))] * (len(a.shape) - n_ax)
        else:
            full.append(i)
    # boolean masks of full rank
    ar = []
    for i in full:
        if isinstance(i, (Ref, Rng, Seq)) or isinstance(i, Tup):
            ai = as_arr(I, i)
            if ai is None:
                return TopT(F(a.f.unit, UNKROWS, deps, t))
            ar.append(ai)
        elif isinstance(i, (TopT, Opaque, Union, Str)):
            return TopT(F(a.f.unit, UNKROWS if a.f.rows[0] != "none" or i.f.rows[0] != "none" else NOROWS, deps, t))
        else:
            ar.append(i)
    full = ar
    consumed = 0
    for i in full:
        if isinstance(i, Const) and i.v is None:
            continue
        consumed += len(i.shape) if isinstance(i, Arr) and i.dt == "b" and i.shape else 1
    if consumed > len(a.shape):
        I.err("IndexError", "too many indices for array: array is %d-dimensional" % len(a.shape), node)
    while consumed < len(a.shape):
        full.append(Slice(Const(None), Const(None), Const(None)))
        consumed += 1
    kind, ax = a.f.rows
    out, nax = [], set()
    axis = 0
    adv = False
    alltrivial = True
    rows_extra = NOROWS
    newkind = kind
    advshape = None
    advpos = None
    for i in full:
        if isinstance(i, Const) and i.v is None:
            out.append(ONE)
            continue
        if isinstance(i, Const) and isinstance(i.v, bool):
            i = num(int(i.v))
        d = a.shape[axis]
        if isinstance(i, Slice):
            l, fl = slice_len(I, i, d)
            if axis in ax:
                if fl is True:
                    nax.add(len(out))
                elif l == d:
                    nax.add(len(out))
                    newkind = "ord" if kind in ("pt", "equi") else kind
                elif d == ONE:
                    nax.add(len(out))
                else:
                    newkind = "ord" if kind in ("pt", "equi") else kind
                    if not generic(l) and kind in ("pt", "equi"):
                        newkind = "unk" if kind != "ord" else "ord"
                        if isinstance(i.b, Num) or isinstance(i.a, Num):
                            newkind = "ord"
            if fl is not True:
                alltrivial = False
            out.append(l)
            axis += 1
        elif isinstance(i, Num):
            alltrivial = alltrivial and d == ONE
            p = topoly(i)
            if p is not None:
                s = I.st.cmp(p, d)
                if -1 not in s and (generic(d) or d.is_const()):
                    I.err("IndexError", "index %s is out of bounds for axis %d with size %s" % (p, axis, d), node)
                if p.is_const() and p.cval() < 0 and 1 not in I.st.cmp(d + p + 1, ZERO) and d.is_const():
                    I.err("IndexError", "index %s is out of bounds for axis %d with size %s" % (p, axis, d), node)
            if i.ity == "float" and (i.c is not None or i.poly is not None or True) and not i.npy and i.ity == "float":
                I.err("IndexError", "only integers, slices and arrays are valid indices", node)
            if axis in ax:
                if d == ONE and len(ax) == 1:
                    pass
                elif kind in ("pt", "equi"):
                    k2 = i.f.rows[0]
                    newkind = "unk" if k2 in ("unk", "inv", "equi") else "ord"
                elif kind == "idx":
                    newkind = "ord"
            rows_extra = jrows(rows_extra, allrows(i.f.rows) if i.f.rows[0] != "unk" or kind != "none" else i.f.rows)
            axis += 1
        elif isinstance(i, Arr):
            adv = True
            idn = (i.f.term is not None and i.f.term.op == "arangeP" and i.f.term.args[0] == ZERO and i.f.term.args[1] == d)
            if not idn:
                alltrivial = False
            if i.dt == "b":
                nd = len(i.shape) if i.shape else 1
                for q in range(nd):
                    if i.shape and i.shape[q] != a.shape[axis + q] and generic(i.shape[q]) and generic(a.shape[axis + q]):
                        I.err("IndexError", "boolean index did not match indexed array along axis %d; size is %s but boolean size is %s" % (axis + q, a.shape[axis + q], i.shape[q]), node)
                sub = selected(i)
                cased = [axis + q for q in range(nd) if axis + q in ax]
                if cased or i.f.rows[1]:
                    if i.f.rows[0] in ("pt", "equi", "none") or kind == "none":
                        nax.add(len(out))
                        newkind = jrows((newkind, frozenset()), (i.f.rows[0], frozenset()))[0]
                    else:
                        newkind = "unk" if i.f.rows[0] == "unk" else i.f.rows[0]
                elif i.f.rows[0] != "none":
                    rows_extra = jrows(rows_extra, allrows(i.f.rows))
                out.append(sub)
                axis += nd
            else:
                if i.dt == "f" and not (i.shape and i.shape[0] == ZERO) and i.f.term is not None and i.f.term.op not in ("union1d", "phi", "setdiff1d", "u"):
                    I.err("IndexError", "arrays used as indices must be of integer (or boolean) type", node)
                if i.f.term is not None and i.f.term.op == "arangeP" and generic(d):
                    # largest index is b-1: it must be below d
                    if generic(i.f.term.args[1]) and I.st.cmp(i.f.term.args[1], d) <= {1} and 1 in I.st.cmp(i.f.term.args[1] - i.f.term.args[0], ZERO):
                        I.err("IndexError", "index is out of bounds for axis %d with size %s" % (axis, d), node)
                sh = i.shape
                if sh is None:
                    return TopT(F(a.f.unit, UNKROWS, deps, t))
                if advshape is None:
                    advpos = len(out)
                    for dd in sh:
                        out.append(dd)
                    advshape = sh
                if axis in ax:
                    if i.f.rows[0] == "idx" and sorting_index(I, i):
                        # rows in the order of a statistic: which case is where is the same
                        # for every order of the cases, and depends on all of them
                        newkind = jrows((newkind, frozenset()), ("inv" if len(ax) == 1 else "equi", frozenset()))[0] if newkind not in ("pt", "equi") else "inv" if len(ax) == 1 else "equi"
                    elif i.f.rows[0] == "idx" or idn:
                        nax.add(advpos)
                    elif i.f.rows[0] == "none":
                        newkind = "unk"
                    elif i.f.rows[0] == "ord":
                        newkind = "ord"
                    else:
                        newkind = "unk"
                elif i.f.rows[0] == "idx":
                    rows_extra = jrows(rows_extra, UNKROWS if kind != "none" else UNKROWS)
                elif i.f.rows[0] != "none":
                    rows_extra = jrows(rows_extra, allrows(i.f.rows))
                axis += 1
        else:
            return TopT(F(a.f.unit, UNKROWS, deps, t))
    if newkind in ("ord", "unk"):
        rows = (newkind, frozenset(nax))
    else:
        if kind in ("pt", "equi") and not nax and ax and newkind == kind:
            pass
        rows = (newkind, frozenset(nax))
    rows = jrows(rows, rows_extra) if rows_extra != NOROWS else rows
    if alltrivial:
        t = laid(a, tuple(out)) if a.f.term is not None else tt(a)
    lo, hi = a.lo, a.hi
    f = F(a.f.unit, rows, deps, t)
    if not out:
        ity = {"i": "int", "f": "float", "b": "bool"}.get(a.dt, "num")
        if a.dt in ("O", "s", "?"):
            return TopT(f)
        c = lo if lo is not None and lo == hi and ity != "bool" else None
        return Num(ity, c=c, lo=lo, hi=hi, npy=True, f=f)
    r = Arr(tuple(out), a.cont if a.cont in ("nd", "mat", "index", "series") else "nd", a.dt, None if adv else a.bufs, None, lo, hi, f, a.lab)
    return r


def idxterm(i, I=None):
    if isinstance(i, (Ref, Tup)) and I is not None:
        its = I.exact_items(i)
        if its is not None and all(isinstance(x, Num) and (x.poly is not None or x.c is not None) for x in its):
            return numterm(its[0]) if len(its) == 1 else T("ilist", *[numterm(x) for x in its])
    if isinstance(i, Slice):
        n = lambda v: T("none") if isinstance(v, Const) and v.v is None else (numterm(v) if isinstance(v, Num) else tt(v))
        return T("sl", n(i.a), n(i.b), n(i.s))
    if isinstance(i, Num):
        return numterm(i)
    return tt(i)


def frame_index(I, a, idx, node):
    """df[...]"""
    i = idx[0]
    deps = a.f.deps | alldeps([x for x in idx if not isinstance(x, Slice)])
    kind, ax = a.f.rows
    if isinstance(i, Const) and isinstance(i.v, str) or isinstance(i, (Str, Num)):
        return Arr(a.shape[:1] if a.shape else None, "series", a.dt, a.bufs, None, a.lo, a.hi, F(a.f.unit, (kind, frozenset(x for x in ax if x == 0)), deps, T("col", tt(a), tt(i))), a.lab)
    ai = as_arr(I, i) if not isinstance(i, Slice) else None
    if ai is not None and ai.shape is not None and len(ai.shape) == 1 and ai.dt != "b":
        return Arr((a.shape[0], ai.shape[0]) if a.shape else None, "frame", a.dt, None, None, a.lo, a.hi, F(a.f.unit, a.f.rows, deps), a.lab)
    return TopT(F(a.f.unit, UNKROWS, deps))


def load_sub(I, v, idx, node):
    if isinstance(v, Arr):
        return index(I, v, parse_idx(I, idx), node)
    I.dispatch(idx, node)
    if isinstance(v, Tup):
        return seq_index(I, list(v.items), idx, node, True)
    if isinstance(v, Ref):
        o = I.st.get(v.oid)
        if isinstance(o, ListObj):
            if o.items is not None:
                return seq_index(I, o.items, idx, node, False)
            if isinstance(idx, Slice):
                return I.new_list(None, o.elem, None, node=node)
            return o.elem if o.elem is not None else Top()
        if isinstance(o, DictObj):
            k = pykey(idx)
            if k is not None:
                if k in o.d:
                    x = o.d[k]
                    if isinstance(x, Union) and UNDEF in x.opts:
                        rest = [z for z in x.opts if z is not UNDEF]
                        return rest[0] if len(rest) == 1 else Union(rest)
                    return x
                if o.default is not None:
                    nv = I.call(o.default, [], {}, node)
                    I.st.mut(v.oid).d[k] = nv
                    return nv
                if o.open:
                    return o.elem if o.elem is not None else Top()
                I.err("KeyError", repr(k), node)
            e = o.elem
            for x in o.d.values():
                e = x if e is None else jval(e, x, Ctx())
            return e if e is not None else Top(idx.f.deps)
        if isinstance(o, ExtObj):
            return call_meth(I, v, "__getitem__", [idx], {}, node)
        return unknown(I, v, idx)
    if isinstance(v, Rng):
        if isinstance(idx, Num):
            return Num("int", f=F(DIMLESS))
    if isinstance(v, Const) and isinstance(v.v, str):
        if isinstance(idx, Num) and isinstance(idx.c, int):
            try:
                return Const(v.v[idx.c])
            except IndexError:
                I.err("IndexError", "string index out of range", node)
        return Str()
    if isinstance(v, Str):
        return Str(v.f)
    if isinstance(v, (Num, Const)) and not isinstance(v, Const) and not v.npy:
        I.err("TypeError", "scalar is not subscriptable", node)
    if isinstance(v, Num):
        I.err("IndexError", "invalid index to scalar variable", node)
    if isinstance(v, Const):
        I.err("TypeError", "'%s' object is not subscriptable" % type(v.v).__name__, node)
    if isinstance(v, Seq):
        return v.elem
    if isinstance(v, Meth) and v.name in ("iloc", "loc", "at", "iat"):
        return call_meth(I, v.recv, v.name, [idx], {}, node)
    return unknown(I, v, idx if not isinstance(idx, Slice) else None)


def seq_index(I, items, idx, node, tup):
    if isinstance(idx, Slice):
        n = lambda x: None if isinstance(x, Const) and x.v is None else (int(x.c) if isinstance(x, Num) and x.c is not None else "?")
        a, b, s = n(idx.a), n(idx.b), n(idx.s)
        if "?" not in (a, b, s):
            r = items[slice(a, b, s)]
            return Tup(r) if tup else I.new_list(r, node=node)
        e = None
        for x in items:
            e = x if e is None else jval(e, x, Ctx())
        return I.new_list(None, e, None, node=node)
    if isinstance(idx, Const) and isinstance(idx.v, bool):
        idx = num(int(idx.v))
    if isinstance(idx, Num):
        if idx.c is not None:
            c = int(idx.c)
            if -len(items) <= c < len(items):
                return items[c]
            I.err("IndexError", "list index out of range", node)
        e = None
        for x in items:
            e = x if e is None else jval(e, x, Ctx())
        return e if e is not None else Top()
    if isinstance(idx, (Const, Tup)) or isinstance(idx, Arr) and idx.shape and len(idx.shape) > 0 and not tup:
        I.err("TypeError", "list indices must be integers or slices", node)
    return unknown(I, *items)


def store_sub(I, recv, idx, v, node):
    if isinstance(recv, Arr):
        return arr_store(I, recv, parse_idx(I, idx), v, node)
    if isinstance(recv, Ref):
        o = I.st.get(recv.oid)
        if isinstance(o, DictObj):
            I.touch(recv, "setitem", node)
            dict_set(I, recv, idx, v)
            return
        if isinstance(o, ListObj):
            I.touch(recv, "setitem", node)
            o = I.st.mut(recv.oid)
            if o.items is not None and isinstance(idx, Num) and idx.c is not None:
                c = int(idx.c)
                if -len(o.items) <= c < len(o.items):
                    o.items[c] = v
                    return
                I.err("IndexError", "list assignment index out of range", node)
            if o.items is not None and isinstance(idx, Num):
                o.items = [jval(x, v, Ctx()) for x in o.items]
                return
            e = v
            for x in o.values():
                e = jval(e, x, Ctx())
            o.items, o.elem = None, e
            return
        if isinstance(o, ExtObj):
            I.touch(recv, "setitem", node)
            if o.kind == "rcParams" or str(o.kind).startswith("environ"):
                I.emit("ext-setattr", node, path=str(o.kind))
            return
    if isinstance(recv, Ext):
        I.emit("ext-setitem", node, path=recv.path)
        return
    if isinstance(recv, Tup):
        I.err("TypeError", "'tuple' object does not support item assignment", node)
    if isinstance(recv, Meth) and isinstance(recv.recv, Arr) and recv.name in ("loc", "iloc", "at", "iat"):
        a = recv.recv
        write(I, a, a.w(f=a.f.w(term=T("u", uid()), deps=a.f.deps | v.f.deps)), node)
        return
    if isinstance(recv, Num):
        I.err("TypeError", "scalar does not support item assignment", node)


def arr_store(I, a, idx, v, node):
    va = as_arr(I, v)
    if a.cont in ("frame",):
        nf = a.f.w(deps=a.f.deps | v.f.deps, term=T("u", uid()), rows=UNKROWS if a.f.rows[0] != "none" else a.f.rows)
        write(I, a, a.w(f=nf), node)
        return
    for k, i in enumerate(idx):
        if isinstance(i, Union):
            alt = []
            for x in i.opts:
                e = as_arr(I, x) if isinstance(x, (Ref, Arr, Tup)) else None
                if x is UNDEF or e is not None and e.shape is not None and len(e.shape) == 1 and e.shape[0] == ZERO and e.dt != "b":
                    continue
                alt.append(x)
            if not alt:
                return
            if len(alt) == 1:
                idx = list(idx[:k]) + [alt[0]] + list(idx[k + 1:])
    sub = index(I, a, idx, node)
    for i in idx:
        e = as_arr(I, i) if isinstance(i, (Ref, Arr, Tup)) else None
        if e is not None and e.shape is not None and len(e.shape) == 1 and e.shape[0] == ZERO and e.dt != "b":
            return      # an empty selection stores nothing
    f = a.f
    full = True
    masked = False
    for k, i in enumerate(idx):
        if isinstance(i, Slice):
            if a.shape is None or k >= len(a.shape):
                full = False
            else:
                l, fl = slice_len(I, i, a.shape[k])
                full = full and fl is True
        elif isinstance(i, Const) and i.v is Ellipsis:
            pass
        elif isinstance(i, Num):
            full = full and a.shape is not None and k < len(a.shape) and a.shape[k] == ONE
        elif isinstance(i, Arr) and i.f.term is not None and i.f.term.op == "arangeP" and a.shape is not None and k < len(a.shape) and i.f.term.args == (ZERO, a.shape[k]):
            pass
        else:
            full = False
            masked = True
    vf = v.f
    unit = f.unit
    vshape = va.shape if va is not None else None
    if isinstance(sub, Arr) and vshape is not None and sub.shape is not None and not isinstance(v, (Num, Const)):
        R = len(sub.shape)
        sh = vshape
        while len(sh) > R and sh[0] == ONE:
            sh = sh[1:]
        if len(sh) > R:
            if generic(sh[0]):
                I.err("ValueError", "could not broadcast input array from shape %s into shape %s" % (vshape, sub.shape), node)
        else:
            for q in range(1, len(sh) + 1):
                x, y = sh[-q], sub.shape[-q]
                if x != ONE and x != y and generic(x) and generic(y):
                    I.err("ValueError", "could not broadcast input array from shape %s into shape %s" % (vshape, sub.shape), node)
    elif isinstance(sub, Num) and vshape is not None and len(vshape) > 0:
        sz = size(va)
        if sz != ONE and generic(sz):
            I.err("ValueError", "setting an array element with a sequence", node)
    if isinstance(sub, Num) and isinstance(v, Const) and (v.v is None or isinstance(v.v, str)) and a.dt == "f" and v.v is not None:
        I.err("ValueError", "could not convert string to float", node)
    # rows
    kind, ax = f.rows
    idxrows = NOROWS
    pos = 0
    for i in idx:
        if isinstance(i, Slice):
            pos += 1
            continue
        ai = as_arr(I, i) if not isinstance(i, (Num,)) else None
        if isinstance(i, Num):
            if pos in ax or (a.shape is not None and pos < len(a.shape) and I.is_case(a.shape[pos])):
                k2 = i.f.rows[0]
                if k2 == "unk" or (i.poly is not None and any(s[0] == "i" for s in i.poly.syms())):
                    idxrows = UNKROWS
                elif a.shape is not None and a.shape[pos] != ONE:
                    idxrows = ("ord", frozenset([pos]))
            pos += 1
        elif ai is not None:
            k2, x2 = ai.f.rows
            nd = len(ai.shape) if ai.dt == "b" and ai.shape else 1
            if k2 == "idx":
                base = ai.f.term
                src = I.idxsrc.get(base.id if base is not None else None, "equi") if hasattr(I, "idxsrc") else "equi"
                idxrows = jrows(idxrows, (src, frozenset([pos])))
            elif ai.dt == "b" and k2 != "none":
                idxrows = jrows(idxrows, (k2, frozenset(x + pos for x in x2)))
            elif k2 != "none":
                idxrows = jrows(idxrows, (k2, frozenset()))
            elif ai.dt != "b" and (pos in ax or a.shape is not None and pos < len(a.shape) and I.is_case(a.shape[pos])):
                if not (ai.f.term is not None and ai.f.term.op == "arangeP"):
                    idxrows = UNKROWS
            pos += nd
        else:
            idxrows = jrows(idxrows, UNKROWS) if i.f.rows[0] == "unk" and (kind != "none" or v.f.rows[0] != "none") else idxrows
            pos += 1
    vrows = vf.rows
    if isinstance(v, (TopT, Opaque, Union)):
        vrows = vrows if vrows[0] != "none" else vrows
    elif va is not None and isinstance(sub, Arr) and sub.shape is not None and va.shape is not None:
        # map axes of the value onto axes of the target
        keep = []
        pos = 0
        nidx = list(idx)
        R = len(a.shape)
        used = 0
        for i in nidx:
            ai = as_arr(I, i) if isinstance(i, (Arr, Ref, Tup)) else None
            used += len(ai.shape) if ai is not None and ai.dt == "b" and ai.shape else 1
        while used < R:
            used += 1
            nidx.append(Slice(Const(None), Const(None), Const(None)))
        for i in nidx:
            if isinstance(i, Num):
                pos += 1
            else:
                ai = as_arr(I, i) if not isinstance(i, Slice) else None
                keep.append(pos)
                pos += len(ai.shape) if ai is not None and ai.dt == "b" and ai.shape else 1
        off = len(keep) - len(va.shape)
        k, x = vf.rows
        vrows = (k, frozenset(keep[y + off] for y in x if 0 <= y + off < len(keep)))
        if k in ("pt", "equi") and x and not vrows[1]:
            # a case axis of the value has been squeezed away
            vrows = UNKROWS
    elif va is not None and isinstance(sub, Num):
        k, x = vf.rows
        vrows = (k, frozenset())
    if full:
        rows = vrows if vrows[0] != "none" or True else vrows
        rows = (rows[0], rows[1])
        unit = vf.unit
        deps = vf.deps
        lo, hi = num_iv(v)
        term = tt(v) if va is not None and a.shape is not None and va.shape is not None and ([d for d in a.shape if d != ONE] == [d for d in va.shape if d != ONE]) else T("fill", tt(v), repr(a.shape))
    else:
        rows = jrows(jrows(f.rows, vrows), idxrows)
        if isinstance(v, (Num, Const)) and masked and v.f.term is not None and v.f.term.op == "c":
            unit = f.unit
        else:
            unit = junit(f.unit, vf.unit)
            if unit is None and f.unit is not None and vf.unit is not None:
                I.emit("unit-conflict", node, op="store", units=ushow(f.unit) + " vs " + ushow(vf.unit))
        deps = f.deps | vf.deps
        if "uninit" in deps and "uninit" in f.deps:
            deps = deps - {"uninit"} | {"uninit?"}
        iv = num_iv(v)
        lo = None if a.lo is None or iv[0] is None else min(a.lo, iv[0])
        hi = None if a.hi is None or iv[1] is None else max(a.hi, iv[1])
        if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].dt == "b" and idx[0].lo is not None and idx[0].lo == idx[0].hi:
            lo, hi = iv if idx[0].lo else (a.lo, a.hi)
        term = T("store", tt(a), *([idxterm(i, I) for i in idx] + [tt(v)]))
    for i in idx:
        if not isinstance(i, Slice):
            deps = deps | i.f.deps
    write(I, a, a.w(f=F(unit, rows, deps, term), lo=lo, hi=hi), node, full=full)


def write(I, old, new, node, full=False):
    """in-place change of the storage of `old`; all aliases are updated"""
    bufs = old.bufs
    I.emit("write", node, bufs=",".join(sorted("/".join(map(str, b)) for b in bufs if b[0] != "new")))
    weak = {}

    def upd(v):
        if isinstance(v, Arr):
            if v.vid == old.vid:
                return v.w(f=new.f, lo=new.lo, hi=new.hi)
            if v.bufs & bufs:
                k = v.vid
                if k not in weak:
                    r = v.f.rows
                    nr = new.f.rows
                    rows = r if nr[0] == "none" or r == nr else (r if r[0] == nr[0] else jrows((r[0], frozenset()), (nr[0], frozenset())))
                    if rows[0] in ("pt", "equi") and not rows[1]:
                        rows = UNKROWS
                    weak[k] = v.w(f=F(junit(v.f.unit, new.f.unit), rows, v.f.deps | new.f.deps, T("u", uid())), lo=None, hi=None)
                return weak[k]
            return v
        if isinstance(v, Tup):
            ni = [upd(x) for x in v.items]
            if any(x is not y for x, y in zip(ni, v.items)):
                return Tup(ni)
            return v
        if isinstance(v, Union):
            no = [upd(x) for x in v.opts]
            if any(x is not y for x, y in zip(no, v.opts)):
                return Union(no)
            return v
        return v
    everywhere(I, upd)


def everywhere(I, upd):
    """apply a value map to all variables and all heap objects"""
    for fr in I.st.frames:
        if fr.fid[0] == "mod":
            continue
        for k, v in list(fr.loc.items()):
            nv = upd(v)
            if nv is not v:
                fr.loc[k] = nv
    for oid in list(I.st.heap):
        o = I.st.heap[oid]
        if isinstance(o, ListObj):
            if o.items is not None:
                ni = [upd(x) for x in o.items]
                if any(x is not y for x, y in zip(ni, o.items)):
                    I.st.mut(oid).items = ni
            elif o.elem is not None:
                e = upd(o.elem)
                if e is not o.elem:
                    I.st.mut(oid).elem = e
        elif isinstance(o, DictObj):
            nd = {k: upd(x) for k, x in o.d.items()}
            if any(nd[k] is not o.d[k] for k in nd):
                I.st.mut(oid).d = nd
        else:
            nd = {k: upd(x) for k, x in o.attrs.items()}
            if any(nd[k] is not o.attrs[k] for k in nd):
                I.st.mut(oid).attrs = nd


def rehead(I, a, dims, what, node, exact=True):
    """the array object itself (not its values) changes: shape, flags"""
    I.emit("header", node, vid=a.vid, what=what)
    shape = m_reshape(I, a, dims, {}, node).shape if dims is not None and exact else None
    if what == "flags":
        return

    def upd(v):
        if isinstance(v, Arr) and v.vid == a.vid:
            return v.w(shape=shape)
        if isinstance(v, Tup):
            ni = [upd(x) for x in v.items]
            return Tup(ni) if any(x is not y for x, y in zip(ni, v.items)) else v
        if isinstance(v, Union):
            no = [upd(x) for x in v.opts]
            return Union(no) if any(x is not y for x, y in zip(no, v.opts)) else v
        return v
    everywhere(I, upd)


def arr_setattr(I, a, name, v, node):
    if name == "shape" and a.cont in ("nd", "mat"):
        rehead(I, a, [v] if isinstance(v, Num) else [Tup(I.exact_items(v))] if I.exact_items(v) is not None else None, "shape", node)
        return
    if a.cont in ("frame", "series"):
        I.emit("write", node, bufs=",".join(sorted("/".join(map(str, b)) for b in a.bufs if b[0] != "new")))


def dict_set(I, ref, k, v):
    o = I.st.mut(ref.oid)
    kk = pykey(k)
    if kk is None:
        o.open = True
        o.elem = v if o.elem is None else jval(o.elem, v, Ctx())
    else:
        o.d[kk] = v


def dict_update(I, ref, src):
    o = I.st.mut(ref.oid)
    if isinstance(src, Ref):
        s = I.st.get(src.oid)
        if isinstance(s, DictObj):
            for k, v in s.d.items():
                if isinstance(v, Union) and UNDEF in v.opts and k in o.d:
                    v = mkunion([x for x in v.opts if x is not UNDEF] + [o.d[k]], Ctx())
                o.d[k] = v
            if s.open:
                o.open = True
                o.elem = s.elem if o.elem is None else (jval(o.elem, s.elem, Ctx()) if s.elem is not None else o.elem)
            return
    its = I.exact_items(src)
    if its is not None and all(isinstance(x, Tup) and len(x.items) == 2 for x in its):
        for x in its:
            dict_set(I, ref, x.items[0], x.items[1])
        return
    o.open = True
    e = Top(deep_deps(I, src))
    o.elem = e if o.elem is None else jval(o.elem, e, Ctx())


def list_extend(I, ref, src):
    o = I.st.mut(ref.oid)
    its = I.exact_items(src)
    if its is not None and o.items is not None and len(o.items) + len(its) <= 40:
        o.items = o.items + its
        return
    e = None
    for x in o.values() + (its if its is not None else [I.elem_of(src)[0]]):
        e = x if e is None else jval(e, x, Ctx())
    o.items, o.elem, o.len = None, e, None


def list_append(I, ref, v):
    o = I.st.mut(ref.oid)
    if o.items is not None and len(o.items) < 12:
        o.items = o.items + [v]
        return
    e = v
    for x in o.values():
        e = jval(e, x, Ctx())
    if o.items is not None:
        o.len = Poly.const(len(o.items) + 1)
    elif o.len is not None:
        o.len = o.len + 1
    o.items, o.elem = None, e


from .extfn import *  # noqa: E402,F401,F403  (function tables)

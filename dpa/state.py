"""Program states: frames, heap, path facts; joins."""
from .poly import Poly, compare
from .values import *


class Frame:
    __slots__ = ("fid", "loc", "mod", "fn", "line", "parent")

    def __init__(self, fid, loc, mod, fn, parent=None):
        self.fid, self.loc, self.mod, self.fn, self.parent = fid, loc, mod, fn, parent
        self.line = 0

    def copy(self):
        f = Frame(self.fid, dict(self.loc), self.mod, self.fn, self.parent)
        f.line = self.line
        return f


class State:
    __slots__ = ("frames", "heap", "facts", "sym", "eqs", "own")

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.facts = {}
        self.sym = ()
        self.eqs = ()
        self.own = set()

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        self.own = set()
        s.own = set()
        s.facts = dict(self.facts)
        s.sym = self.sym
        s.eqs = self.eqs
        return s

    def get(self, oid):
        return self.heap[oid]

    def mut(self, oid):
        """object for mutation (copy on write)"""
        if oid not in self.own:
            self.heap[oid] = self.heap[oid].copy()
            self.own.add(oid)
        return self.heap[oid]

    def cmp(self, a, b):
        return compare(a, b, self.sym)

    @property
    def top(self):
        return self.frames[-1]


class Ctx:
    """join context: deps to add to values that differ; widening switch"""
    __slots__ = ("deps", "widen", "map")

    def __init__(self, deps=NODEPS, widen=False):
        self.deps, self.widen, self.map = deps, widen, {}


_EQ = [(), ()]


def _spec(p, eqs):
    for s, q in eqs:
        p = p.subst(s, q)
    return p


def gdim(x, y):
    """common general form of a dimension known more specifically on one path"""
    if x == y:
        return x
    if _EQ[1] and _spec(x, _EQ[1]) == y:
        return x
    if _EQ[0] and _spec(y, _EQ[0]) == x:
        return y
    return None


def compatible(a, b):
    """may a and b be merged without losing control-relevant information?"""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is not tb:
        if {ta, tb} <= {Num, Const}:
            x = a if ta is Const else b
            return isinstance(x.v, bool) and (b if ta is Const else a).ity == "bool"
        return False
    if ta is Const:
        return a.v == b.v and type(a.v) is type(b.v)
    if ta is Num:
        if a.ity == "bool" or b.ity == "bool":
            return True
        if (a.poly is not None and b.poly is not None and gdim(a.poly, b.poly) is None):
            return False
        return True
    if ta is Arr:
        if a.cont != b.cont:
            return False
        if a.shape is None or b.shape is None:
            return a.shape == b.shape
        if len(a.shape) != len(b.shape):
            return False
        if any(gdim(x, y) is None and not ((_dyn(x) and (_dyn(y) or y.is_const())) or (_dyn(y) and x.is_const())) for x, y in zip(a.shape, b.shape)):
            return False
        ka, kb = a.f.rows[0], b.f.rows[0]
        return ka == kb or {ka, kb} <= {"none", "pt", "inv", "equi"}
    if ta is Tup:
        return len(a.items) == len(b.items) and all(compatible(x, y) for x, y in zip(a.items, b.items))
    if ta in (Str, TopT, Opaque, Seq, Rng):
        return True
    return a.key() == b.key()


def _dyn(p):
    return any(s[0] in "k?" for s in p.syms())


def stored_from(t, base):
    """is t the value base with some entries replaced? (entries chosen by the data of
    their own case: whether there are any to replace is no choice for the others)"""
    for _ in range(12):
        if t is base:
            return True
        if t is None or t.op != "store":
            return False
        t = t.args[0] if hasattr(t.args[0], "op") else None
    return False


def jf(a, b, ctx, same):
    if a is b:
        return a
    unit = junit(a.unit, b.unit)
    rows = jrows(a.rows, b.rows)
    deps = a.deps | b.deps
    term = a.term
    if a.term is not b.term:
        key = ("phi", a.term.id if a.term else 0, b.term.id if b.term else 0)
        term = ctx.map.get(key)
        if term is None:
            term = ctx.map[key] = T("phi", uid())
        deps = deps | (ctx.deps - {"batch"} if "batch" in ctx.deps and (stored_from(a.term, b.term) or stored_from(b.term, a.term)) else ctx.deps)
    elif a.term is None:
        deps = deps | ctx.deps
    return F(unit, rows, deps, term)


def jval(a, b, ctx):
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if ta is Const and tb is Const:
        if a.v == b.v and type(a.v) is type(b.v):
            if a.f.deps == b.f.deps:
                return a
            return Const(a.v, a.f.w(deps=a.f.deps | b.f.deps))
        d = a.f.deps | b.f.deps | ctx.deps
        if isinstance(a.v, bool) and isinstance(b.v, bool):
            return Num("bool", lo=0, hi=1, f=F(DIMLESS, deps=d, term=T("phi", uid())))
        if isinstance(a.v, str) and isinstance(b.v, str) and ctx.widen:
            return Str(F(deps=d))
        return mkunion([a, b], ctx)
    if ta is Num and tb is Num:
        if a.key() == b.key() and a.f.term is b.f.term:
            return a
        f = jf(a.f, b.f, ctx, False)
        if ctx.widen:
            c = a.c if (a.c is not None and a.c == b.c) else None
            poly = gdim(a.poly, b.poly) if a.poly is not None and b.poly is not None else None
            lo = a.lo if a.lo is not None and b.lo is not None and b.lo >= a.lo else None
            hi = a.hi if a.hi is not None and b.hi is not None and b.hi <= a.hi else None
        else:
            c = a.c if (a.c is not None and a.c == b.c) else None
            poly = gdim(a.poly, b.poly) if a.poly is not None and b.poly is not None else None
            lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
            hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
        ity = a.ity if a.ity == b.ity else ("float" if {a.ity, b.ity} == {"int", "float"} else "num")
        return Num(ity, c, poly, lo, hi, a.npy and b.npy, f)
    if {ta, tb} == {Num, Const}:
        x, y = (a, b) if ta is Num else (b, a)
        if isinstance(y.v, bool) and x.ity == "bool":
            return Num("bool", lo=0, hi=1, f=jf(x.f, y.f, ctx, False))
        return mkunion([a, b], ctx)
    if ta is Arr and tb is Arr:
        if a.vid == b.vid and a.f.term is b.f.term and a.key() == b.key():
            return a
        f = jf(a.f, b.f, ctx, False)
        if a.shape is None or b.shape is None or len(a.shape) != len(b.shape):
            shape = None
            f = f.w(rows=UNKROWS if f.rows[0] not in ("none",) else f.rows)
        else:
            shape = tuple(_fresh(ctx, x, y) for x, y in zip(a.shape, b.shape))
        bufs = a.bufs | b.bufs
        if len(bufs) > 12:
            keep = [x for x in bufs if x[0] != "new"]
            bufs = frozenset(keep + sorted([x for x in bufs if x[0] == "new"], key=str)[-6:])
        vid = a.vid
        if a.vid != b.vid:
            k = ("vid", a.vid, b.vid)
            vid = ctx.map.get(k)
            if vid is None:
                vid = ctx.map[k] = uid()
        lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
        hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
        if ctx.widen:
            lo = lo if lo == a.lo else None
            hi = hi if hi == a.hi else None
        return Arr(shape, a.cont if a.cont == b.cont else "?", a.dt if a.dt == b.dt else "?", bufs, vid, lo, hi, f,
                   a.lab if a.lab == b.lab else None)
    if ta is Tup and tb is Tup and len(a.items) == len(b.items):
        return Tup([jval(x, y, ctx) for x, y in zip(a.items, b.items)])
    if ta is Str and tb in (Str, Const) or tb is Str and ta is Const:
        return Str(F(deps=a.f.deps | b.f.deps))
    if ta is TopT or tb is TopT:
        return TopT(F(rows=jrows(a.f.rows, b.f.rows), deps=a.f.deps | b.f.deps | ctx.deps))
    if ta is Opaque and tb is Opaque and a.tag == b.tag:
        return Opaque(a.tag, jf(a.f, b.f, ctx, False), a.bufs | b.bufs)
    if ta is tb and a.key() == b.key():
        return a
    return mkunion([a, b], ctx)


def _fresh(ctx, x, y):
    g = gdim(x, y)
    if g is not None:
        return g
    k = ("dim", x, y)
    r = ctx.map.get(k)
    if r is None:
        r = ctx.map[k] = Poly.sym("k%d" % uid())
    return r


def mkunion(vals, ctx):
    opts = []
    for v in vals:
        for o in (v.opts if isinstance(v, Union) else [v]):
            for i, p in enumerate(opts):
                if type(p) is type(o) and type(o) in (Num, Arr, Str, TopT):
                    opts[i] = jval(p, o, ctx)
                    break
                if p.key() == o.key():
                    break
            else:
                opts.append(o)
    if len(opts) == 1:
        return opts[0]
    if len(opts) > 6:
        d = NODEPS
        for o in opts:
            d = d | o.f.deps
        return Top(d)
    return Union(opts)


def jobj(a, b, ctx, force):
    """join heap objects; returns None when not mergeable and not forced"""
    if a is b:
        return a
    if type(a) is not type(b):
        return a if force else None
    if isinstance(a, ListObj):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            if not force and not all(compatible(x, y) for x, y in zip(a.items, b.items)):
                return None
            return ListObj([jval(x, y, ctx) for x, y in zip(a.items, b.items)], None, a.len, a.tag)
        vals = a.values() + b.values()
        e = None
        for v in vals:
            e = v if e is None else jval(e, v, ctx)
        la = Poly.const(len(a.items)) if a.items is not None else a.len
        lb = Poly.const(len(b.items)) if b.items is not None else b.len
        ln = gdim(la, lb) if la is not None and lb is not None else None
        return ListObj(None, e, ln, a.tag)
    if isinstance(a, DictObj):
        if not force and set(a.d) != set(b.d):
            return None
        if not force and not all(compatible(a.d[k], b.d[k]) for k in a.d):
            return None
        d = {}
        for k in list(a.d) + [k for k in b.d if k not in a.d]:
            if k in a.d and k in b.d:
                d[k] = jval(a.d[k], b.d[k], ctx)
            else:
                d[k] = mkunion([a.d.get(k, UNDEF), b.d.get(k, UNDEF)], ctx)
        e = a.elem if b.elem is None else b.elem if a.elem is None else jval(a.elem, b.elem, ctx)
        return DictObj(d, a.open or b.open, e, a.tag, a.default)
    ka = {k for k, v in a.attrs.items() if v is not UNDEF}
    kb = {k for k, v in b.attrs.items() if v is not UNDEF}
    if not force:
        if ka != kb:
            return None
        if isinstance(a, Obj) and not all(compatible(a.attrs[k], b.attrs[k]) for k in ka):
            return None
    at = {}
    for k in ka | kb:
        if k in ka and k in kb:
            at[k] = jval(a.attrs[k], b.attrs[k], ctx)
        else:
            at[k] = mkunion([a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF)], ctx)
    if isinstance(a, Obj):
        return Obj(a.cls, at, a.tag)
    return ExtObj(a.kind, at, jf(a.f, b.f, ctx, False), a.tag)


def conflict_deps(a, b):
    d = NODEPS
    for t, (v, dp) in a.facts.items():
        o = b.facts.get(t)
        if o is not None and o[0] != v:
            d = d | dp
    return d


NOMERGE = [False]


def jstate(a, b, force=False, widen=False, live=None, extra=None, deps=NODEPS):
    """join two states with the same frame stack; None when incompatible"""
    if NOMERGE[0] and not force and any(t in b.facts and b.facts[t][0] != v[0] for t, v in a.facts.items()):
        return None
    k = 0
    while k < len(a.eqs) and k < len(b.eqs) and a.eqs[k] == b.eqs[k]:
        k += 1
    save = _EQ[:]
    _EQ[0], _EQ[1] = a.eqs[k:], b.eqs[k:]
    try:
        r = _jstate(a, b, force, widen, live, extra, deps)
        if r is not None:
            (r[0] if isinstance(r, tuple) else r).eqs = a.eqs[:k]
        return r
    finally:
        _EQ[:] = save


def _jstate(a, b, force, widen, live, extra, deps=NODEPS):
    if len(a.frames) != len(b.frames):
        return None
    if not force:
        for fa, fb in zip(a.frames, b.frames):
            last = fa is a.frames[-1]
            names = set(fa.loc) | set(fb.loc)
            for nme in names:
                if last and live is not None and nme not in live:
                    continue
                va, vb = fa.loc.get(nme, UNDEF), fb.loc.get(nme, UNDEF)
                if va is not vb and not compatible(va, vb):
                    return None
        if extra is not None and not compatible(*extra):
            return None
    ctx = Ctx(conflict_deps(a, b) | deps, widen)
    s = State()
    s.facts = {t: v for t, v in a.facts.items() if t in b.facts and b.facts[t][0] == v[0]}
    s.sym = tuple(p for p in a.sym if p in b.sym)
    for oid, oa in a.heap.items():
        ob = b.heap.get(oid)
        if ob is None:
            s.heap[oid] = oa
            continue
        j = jobj(oa, ob, ctx, force)
        if j is None:
            return None
        s.heap[oid] = j
    for oid, ob in b.heap.items():
        if oid not in s.heap:
            s.heap[oid] = ob
    for fa, fb in zip(a.frames, b.frames):
        last = fa is a.frames[-1]
        loc = {}
        for nme in set(fa.loc) | set(fb.loc):
            if last and live is not None and nme not in live:
                continue
            va, vb = fa.loc.get(nme, UNDEF), fb.loc.get(nme, UNDEF)
            if va is vb:
                loc[nme] = va
            elif va is UNDEF or vb is UNDEF:
                loc[nme] = mkunion([va, vb], ctx)
            else:
                loc[nme] = jval(va, vb, ctx)
        f = Frame(fa.fid, loc, fa.mod, fa.fn, fa.parent)
        f.line = fa.line
        s.frames.append(f)
    if extra is not None:
        return s, jval(extra[0], extra[1], ctx)
    return s


def ssig(s, live=None):
    from . import values as V
    V._CANON[0] = True
    try:
        out = []
        for f in s.frames:
            if f.fid[0] == "mod":
                continue
            last = f is s.frames[-1]
            out.append(tuple(sorted((k, v.key()) for k, v in f.loc.items()
                                    if v is not UNDEF and (not last or live is None or k in live))))
        hp = tuple(sorted(((str(o), x.sig()) for o, x in s.heap.items()), key=lambda kv: kv[0]))
        return (tuple(out), hp)
    finally:
        V._CANON[0] = False

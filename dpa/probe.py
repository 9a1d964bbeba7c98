"""Operations of the scenario scripts themselves (not of the analysed code)."""
from .values import *
from . import ext as X
from . import extfn


def _walk(I, v, fn, path, seen, skip=("-",)):
    """apply fn(value, path) to every value reachable from v; rebuilds containers"""
    if isinstance(v, Ref):
        if v.oid in seen:
            return v
        seen.add(v.oid)
        if str(I.st.get(v.oid).tag or "").startswith(skip):
            return v
        o = I.st.mut(v.oid)
        if isinstance(o, (Obj, ExtObj)):
            for k in list(o.attrs):
                o.attrs[k] = _walk(I, o.attrs[k], fn, path + (k,), seen, skip)
        elif isinstance(o, ListObj):
            if o.items is not None:
                o.items = [_walk(I, x, fn, path, seen, skip) for x in o.items]
            if o.elem is not None:
                o.elem = _walk(I, o.elem, fn, path, seen, skip)
        elif isinstance(o, DictObj):
            for k in list(o.d):
                o.d[k] = _walk(I, o.d[k], fn, path, seen, skip)
        fn(v, path, o)
        return v
    if isinstance(v, Tup):
        return Tup([_walk(I, x, fn, path, seen, skip) for x in v.items])
    if isinstance(v, Union):
        return Union([_walk(I, x, fn, path, seen, skip) if x is not UNDEF else x for x in v.opts])
    r = fn(v, path, None)
    return v if r is None else r


def freeze(I, args, kw, node):
    """label everything a fitted object holds, so that later changes to it show"""
    tag = args[1].v

    def fn(v, path, o):
        if o is not None:
            if o.tag is None:
                o.tag = tag if not path else tag + "." + path[0]
            return None
        if isinstance(v, Arr):
            return v.w(bufs=v.bufs | {(tag, ".".join(path[:1]))})
        return None
    r = _walk(I, args[0], fn, (), set())
    if not isinstance(args[0], Ref):
        return r
    return Const(None)


def params_of(I, cls):
    init = I.lookup_cls(cls, "__init__")
    if init is None:
        return []
    a = init.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg != "self"]


def snapshot(I, args, kw, node):
    """the attributes of an object at this moment"""
    if not isinstance(args[0], Ref):
        return Const(None)
    ob = I.st.get(args[0].oid)
    r = I.new_dict({}, node=node)
    I.st.mut(r.oid).d.update(ob.attrs)
    return r


def stale(I, args, kw, node):
    """taint every attribute that is not a constructor option and has changed since
    the snapshot given as second argument"""
    from .interp import same_value
    if not isinstance(args[0], Ref):
        return Const(None)
    ob = I.st.get(args[0].oid)
    if not isinstance(ob, Obj):
        return Const(None)
    keep = set(params_of(I, ob.cls))
    old = I.st.get(args[1].oid).d if len(args) > 1 and isinstance(args[1], Ref) else {}

    def fn(v, path, o):
        if o is not None:
            if isinstance(o, ExtObj):
                o.f = o.f.w(deps=o.f.deps | {"stale"})
            return None
        return taint(v, "stale")
    o = I.st.mut(args[0].oid)
    seen = {args[0].oid}
    for k in list(o.attrs):
        if k not in keep and not (k in old and same_value(old[k], o.attrs[k])):
            o.attrs[k] = _walk(I, o.attrs[k], fn, (k,), seen, ("default:", "classattr:", "module:", "caller:"))
    return Const(None)


def initdiff(I, args, kw, node):
    """taint the attributes of the first object, other than its options, whose value
    differs from that in the second object"""
    a, b = (I.st.get(x.oid) if isinstance(x, Ref) else None for x in args[:2])
    if not isinstance(a, Obj) or not isinstance(b, Obj):
        return Const(None)
    keep = set(params_of(I, a.cls))
    o = I.st.mut(args[0].oid)

    def fn(v, path, ob):
        return None if ob is not None else taint(v, args[2].v)
    for k in list(o.attrs):
        if k not in keep and not alike(I, o.attrs[k], b.attrs.get(k, UNDEF), 4):
            o.attrs[k] = _walk(I, o.attrs[k], fn, (k,), set())
    return Const(None)


def alike(I, a, b, depth):
    from .interp import same_value
    if same_value(a, b) or depth == 0:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        x, y = I.st.get(a.oid), I.st.get(b.oid)
        if type(x) is not type(y):
            return False
        if isinstance(x, ListObj):
            if x.items is None or y.items is None:
                return x.items is y.items
            return len(x.items) == len(y.items) and all(alike(I, u, v, depth - 1) for u, v in zip(x.items, y.items))
        if isinstance(x, DictObj):
            return list(x.d) == list(y.d) and all(alike(I, x.d[k], y.d[k], depth - 1) for k in x.d)
        if isinstance(x, Obj):
            return x.cls is y.cls and set(x.attrs) == set(y.attrs) and all(alike(I, x.attrs[k], y.attrs[k], depth - 1) for k in x.attrs)
        return True
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(alike(I, u, v, depth - 1) for u, v in zip(a.items, b.items))
    if isinstance(a, (Func, Ext)) or type(a).__name__ in ("Class", "Cls"):
        return type(a) is type(b) and a.key() == b.key()
    return False


def taint(v, d):
    if isinstance(v, (Arr, Num)):
        return v.w(f=v.f.w(deps=v.f.deps | {d}))
    if isinstance(v, Const):
        return Const(v.v, v.f.w(deps=v.f.deps | {d}))
    if isinstance(v, TopT):
        return TopT(v.f.w(deps=v.f.deps | {d}))
    if isinstance(v, Opaque):
        return Opaque(v.tag, v.f.w(deps=v.f.deps | {d}), v.bufs)
    if isinstance(v, Str):
        return Str(v.f.w(deps=v.f.deps | {d}))
    return None


def mark(I, args, kw, node):
    """taint a value: mark(v, 'name')"""
    d = args[1].v

    def fn(v, path, o):
        return None if o is not None else taint(v, d)
    return _walk(I, args[0], fn, (), set())


def caller(I, args, kw, node):
    """an object the caller owns: caller(obj, 'name')"""
    if isinstance(args[0], Ref):
        I.st.mut(args[0].oid).tag = "caller:" + args[1].v
    return args[0]


extfn.FN["dpa.caller"] = caller
extfn.FN["dpa.freeze"] = freeze
extfn.FN["dpa.stale"] = stale
extfn.FN["dpa.snapshot"] = snapshot
extfn.FN["dpa.mark"] = mark
extfn.FN["dpa.initdiff"] = initdiff
NS = {"freeze": Ext("dpa.freeze"), "stale": Ext("dpa.stale"), "snapshot": Ext("dpa.snapshot"), "mark": Ext("dpa.mark"), "caller": Ext("dpa.caller"), "initdiff": Ext("dpa.initdiff")}

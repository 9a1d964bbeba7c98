"""Abstract interpreter for the Python subset used by the package."""
import ast
import builtins as _b
from .poly import Poly, ONE, ZERO
from .values import *
from .state import *
from .loader import AnalysisError, liveness

MAXSTATES = 8
MAXDEPTH = 40


class AbsRaise(Exception):
    def __init__(self, exc, msg="", node=None, kind="error", where=None, val=None):
        self.exc, self.msg, self.node, self.kind, self.where, self.val = exc, msg, node, kind, where, val

    def fnsite(self):
        """construct without the line: file (function)"""
        import re
        return re.sub(r":[0-9]+ ", " ", str(self.where))

    def describe(self):
        return "%s%s at %s" % (self.exc, (": " + self.msg) if self.msg else "", self.where)


class Infeasible(Exception):
    pass


class Budget(Exception):
    pass


class Oracle:
    __slots__ = ("pre", "taken", "cache", "n")

    def __init__(self, pre, cache):
        self.pre, self.cache = pre, cache
        self.taken = []
        self.n = 0

    def choose(self, k):
        if k <= 1:
            return 0
        i = len(self.taken)
        c = self.pre[i] if i < len(self.pre) else 0
        self.taken.append((c, k))
        return c

    def key(self):
        self.n += 1
        return (tuple(c for c, _ in self.taken), self.n)


EXC = {}


def _exc_bases(name):
    c = getattr(_b, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return {k.__name__ for k in c.__mro__}
    return {name, "Exception", "BaseException"}


class Interp:
    def __init__(self, prog, budget=400000):
        self.prog = prog
        self.o = None
        self.st = None
        self.events = {}
        self.evlist = []
        self.live = {}
        self.steps = 0
        self.budget = budget
        self.depth = 0
        self.visited = set()
        self.called = {}
        self.extcalls = set()
        self.unmodelled = {}
        self.hooks = {}
        self.tracing = True
        self.casesyms = frozenset()
        self.nonan = True
        self.standins = {}
        self.loops = 0
        self.peel = 2
        from . import ext
        self.ext = ext
        self.standins["minimize_ipopt"] = ("ipopt_wrapper", ext.ipopt_standin)
        self.base = State()
        self.st = self.base
        self.o = Oracle((), {})
        for m in list(prog.modules.values()):
            self.load(m)
        for m in prog.modules.values():
            for k in list(m.ns):
                m.ns[k] = self.share(m.ns[k], "module:%s.%s" % (m.name, k))
        self.base = self.st
        self.events.clear()
        self.evlist.clear()

    # ------------------------------------------------------------ modules
    def load(self, m):
        if m.state:
            return
        m.state = 1
        m.ns["__name__"] = Const(m.name)
        st = self.st
        fr = Frame(("mod", m.name), m.ns, m, "<module>")
        st.frames.append(fr)
        self._modstack = getattr(self, "_modstack", [])
        self._modstack.append(m)
        try:
            self.mod_block(m.tree.body, m)
        finally:
            self._modstack.pop()
            fr = self.st.frames.pop()
            if fr.loc is not m.ns:
                m.ns.update(fr.loc)
        m.state = 2

    def share(self, v, tag):
        """name the containers and arrays that live as long as the module does"""
        if isinstance(v, Ref):
            o = self.st.mut(v.oid)
            if o.tag is not None:
                return v
            o.tag = tag
            if isinstance(o, ListObj) and o.items is not None:
                o.items = [self.share(x, tag) for x in o.items]
            elif isinstance(o, DictObj):
                for k in list(o.d):
                    o.d[k] = self.share(o.d[k], tag)
            elif isinstance(o, (Obj, ExtObj)):
                for k in list(o.attrs):
                    o.attrs[k] = self.share(o.attrs[k], tag)
            return v
        if isinstance(v, Tup):
            return Tup([self.share(x, tag) for x in v.items])
        if isinstance(v, Arr):
            return v.w(bufs=v.bufs | {("shared", tag)})
        if isinstance(v, Cls):
            for k in list(v.ns):
                if isinstance(v.ns[k], Arr) and not any(b[0] == "shared" for b in v.ns[k].bufs):
                    v.ns[k] = self.share(v.ns[k], "classattr:%s.%s" % (v.node.name, k))
        return v

    def mod_block(self, body, m):
        for s in body:
            if isinstance(s, (ast.If,)):
                try:
                    t = self.truth(self.eval(s.test))
                except AbsRaise:
                    t = None
                self.mod_block(s.body if t is not False else s.orelse, m)
                continue
            if isinstance(s, ast.Try):
                self.mod_block(s.body, m)
                self.mod_block(s.orelse, m)
                self.mod_block(s.finalbody, m)
                continue
            try:
                self.simple(s)
            except AbsRaise as e:
                self.emit("module-error", s, msg=e.describe())

    # ------------------------------------------------------------ events
    def where(self, node=None):
        fr = self.st.top if self.st.frames else None
        line = getattr(node, "lineno", None) or (fr.line if fr else 0)
        return "%s:%s (%s)" % (fr.mod.path if fr else "?", line, fr.fn if fr else "?")

    def stack(self):
        return " > ".join("%s:%s" % (f.fn, f.line) for f in self.st.frames[-6:])

    watch = frozenset()
    flow = frozenset()

    def emit(self, kind, node, **info):
        fr = self.st.top if self.st.frames else None
        line = getattr(node, "lineno", None) or (fr.line if fr else 0)
        key = (kind, fr.mod.path if fr else "?", line, getattr(node, "col_offset", 0), tuple(sorted((k, str(v)) for k, v in info.items())))
        if key in self.events:
            return
        ev = dict(kind=kind, file=fr.mod.path if fr else "?", line=line, fn=fr.fn if fr else "?", stack=self.stack(), **info)
        self.events[key] = ev
        self.evlist.append(ev)

    def err(self, exc, msg, node=None, kind="error"):
        w = self.where(node)
        raise AbsRaise(exc, msg, node, kind, w)

    # ------------------------------------------------------------ choices
    def run_choices(self, state, fn, limit=64):
        cache = {}
        work = [()]
        res = []
        so, ss = self.o, self.st
        try:
            while work:
                pre = work.pop()
                self.o = Oracle(pre, cache)
                self.st = state.copy()
                try:
                    v = fn()
                    res.append(("ok", self.st, v))
                except AbsRaise as e:
                    res.append(("raise", self.st, e))
                except Infeasible:
                    pass
                tk = self.o.taken
                if len(res) + len(work) < limit:
                    for pos in range(len(pre), len(tk)):
                        ch, n = tk[pos]
                        for alt in range(ch + 1, n):
                            work.append(tuple(c for c, _ in tk[:pos]) + (alt,))
        finally:
            self.o, self.st = so, ss
        return res

    def truth(self, v):
        """True / False / None"""
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Num):
            if v.c is not None:
                return bool(v.c)
            if v.lo is not None and v.lo > 0 or v.hi is not None and v.hi < 0:
                return True
            if v.poly is not None:
                s = self.st.cmp(v.poly, ZERO)
                if 0 not in s:
                    return True
                if s == {0}:
                    return False
            return None
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, (Func, Cls, Ext, Meth, ModV)):
            return True
        if isinstance(v, Ref):
            o = self.st.get(v.oid)
            if isinstance(o, ListObj):
                if o.items is not None:
                    return bool(o.items)
                if o.len is not None and 0 not in self.st.cmp(o.len, ZERO):
                    return True
                return None
            if isinstance(o, DictObj):
                if any(not isinstance(x, Union) for x in o.d.values()):
                    return True
                return None if (o.open or o.d) else False
            return True
        if isinstance(v, Rng):
            s = self.st.cmp(v.b, v.a)
            if s == {1}:
                return True
            if 1 not in s:
                return False
            return None
        if isinstance(v, Union):
            ts = {self.truth(o) for o in v.opts if o is not UNDEF}
            return ts.pop() if len(ts) == 1 else None
        return None

    def dispatch(self, v, node, res=None):
        """a value selects what is done next by its name"""
        if self.flow and isinstance(v, (Const, Str, Num, TopT)) and self.flow & v.f.deps:
            self.emit("dispatch", node, callee=isinstance(res, (Func, Ext, Cls)))

    def decide(self, v, node=None):
        if self.watch and self.watch & v.f.deps:
            self.emit("watched", node, deps=",".join(sorted(self.watch & v.f.deps)))
        if isinstance(v, Arr):
            sz = self.ext.size(v)
            if sz is not None and sz.cval() != 1 and self.ext.generic(sz) and v.cont in ("nd", "frame", "series", "mat"):
                if sz != ZERO:
                    self.err("ValueError", "truth value of an array with more than one element is ambiguous", node)
        t = self.truth(v)
        if t is not None:
            bad = self.flow & v.f.deps if self.flow else None
            if not bad:
                return t
            # implicit flow: what the other outcome would have done counts as well
            term = v.f.term or T("cond", uid())
            key = T("flow", term)
            fct = self.st.facts.get(key)
            if fct is None:
                val = self.o.choose(2) == 0
                self.st.facts[key] = (val, bad)
            else:
                val = fct[0]
            return t if val else not t
        term = v.f.term
        neg = False
        while term is not None and term.op == "not":
            term, neg = term.args[0], not neg
        if term is None:
            term = T("cond", uid())
        fct = self.st.facts.get(term)
        if fct is not None:
            return fct[0] != neg
        sub = self.fact_of(term)
        if sub is not None:
            return sub != neg
        c = self.o.choose(2)
        val = (c == 0)
        self.emit("fork", node, term=show(term, 3), deps=",".join(sorted(v.f.deps)))
        d = v.f.deps
        if self.hooks.get("batch") and v.f.rows[0] in ("inv", "equi", "ord"):
            d = d | {"batch"}       # decided by several cases together
        self.assume(term, val != neg, d)
        return val

    def fact_of(self, t):
        """truth of a boolean term from facts"""
        f = self.st.facts.get(t)
        if f is not None:
            return f[0]
        if t.op == "not":
            s = self.fact_of(t.args[0])
            return None if s is None else not s
        if t.op == "and":
            a, b = self.fact_of(t.args[0]), self.fact_of(t.args[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if t.op == "or":
            a, b = self.fact_of(t.args[0]), self.fact_of(t.args[1])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if t.op in ("lt", "eq") and len(t.args) == 2 and all(isinstance(a, Term) for a in t.args):
            a, b = t.args
            if a is b:
                return t.op == "eq"
            if t.op == "lt":
                if self.st.facts.get(T("lt", b, a), (None,))[0]:
                    return False
                e = self.st.facts.get(T("eq", *sorted((a, b), key=lambda z: z.id)))
                if e is not None and e[0]:
                    return False
                c1 = _cterm(b)
                if c1 is not None:
                    for ft, (fv, _) in self.st.facts.items():
                        if ft.op == "lt" and ft.args[0] is a:
                            c2 = _cterm(ft.args[1])
                            if c2 is not None:
                                if fv and c2 <= c1:
                                    return True
                                if not fv and c2 >= c1:
                                    return False
            else:
                if self.st.facts.get(T("lt", a, b), (None,))[0] or self.st.facts.get(T("lt", b, a), (None,))[0]:
                    return False
        return None

    def assume(self, term, val, deps=NODEPS):
        self.st.facts[term] = (val, deps)
        if term.op == "not":
            self.assume(term.args[0], not val, deps)
        elif term.op == "and" and val:
            self.assume(term.args[0], True, deps)
            self.assume(term.args[1], True, deps)
        elif term.op == "or" and not val:
            self.assume(term.args[0], False, deps)
            self.assume(term.args[1], False, deps)
        elif term.op in ("lt", "eq"):
            a, b = (_polyterm(x) for x in term.args)
            if a is not None and b is not None:
                poss = self.st.cmp(a, b)
                if term.op == "lt":
                    if val:
                        if -1 not in poss:
                            raise Infeasible()
                        self.st.sym = self.st.sym + (b - a - 1,)
                    else:
                        if not poss & {0, 1}:
                            raise Infeasible()
                        self.st.sym = self.st.sym + (a - b,)
                else:
                    if val:
                        if 0 not in poss:
                            raise Infeasible()
                        self.unify(a, b)
                    else:
                        if poss == {0}:
                            raise Infeasible()
                        if 1 not in poss:
                            self.st.sym = self.st.sym + (b - a - 1,)
                        elif -1 not in poss:
                            self.st.sym = self.st.sym + (a - b - 1,)

    def unify(self, a, b):
        """two dimensions are equal on this path: eliminate a symbol where that is exact"""
        d = a - b
        for _ in range(2):
            lin = [k for k in d.t if k]
            if d.t.get((), 0) == 0 and lin and all(d.t[k] > 0 for k in lin):
                for k in lin:                       # non-negative terms summing to zero
                    if len(k) == 1:
                        self.subst(k[0][0], ZERO)
                return
            d = -d
        self.st.sym = self.st.sym + (d, -d)
        for s in sorted(d.syms(), key=lambda z: (z[0] not in "k?", z)):
            if d.t.get(((s, 1),)) in (1, -1) and len([k for k in d.t if any(z == s for z, _ in k)]) == 1:
                c = d.t[((s, 1),)]
                rest = d - Poly.sym(s) * c
                rest = -rest if c == 1 else rest
                if s[0] in "k?" or rest.nonneg():
                    self.subst(s, rest)
                    return

    def subst(self, s, p):
        def pl(q):
            return q.subst(s, p) if isinstance(q, Poly) else q

        def val(v):
            if isinstance(v, Arr) and v.shape is not None and any(s in d.syms() for d in v.shape):
                return v.w(shape=tuple(d.subst(s, p) for d in v.shape))
            if isinstance(v, Num) and v.poly is not None and s in v.poly.syms():
                q = v.poly.subst(s, p)
                return Num(v.ity, None, q, None, None, v.npy, v.f)
            if isinstance(v, Tup):
                new = [val(x) for x in v.items]
                return Tup(new) if any(x is not y for x, y in zip(new, v.items)) else v
            if isinstance(v, Rng) and (s in v.a.syms() or s in v.b.syms()):
                return Rng(pl(v.a), pl(v.b), v.step, v.f)
            if isinstance(v, Seq) and (v.elem is not None):
                e = val(v.elem)
                if e is not v.elem or pl(v.len) != v.len:
                    return Seq(e, pl(v.len))
            if isinstance(v, Union):
                new = [val(x) for x in v.opts]
                return Union(new) if any(x is not y for x, y in zip(new, v.opts)) else v
            return v
        self.st.sym = tuple(q for q in (x.subst(s, p) for x in self.st.sym) if not q.is_const())
        self.st.eqs = self.st.eqs + ((s, p),)
        for fr in self.st.frames:
            if fr.fid[0] == "mod":
                continue
            for k, v in list(fr.loc.items()):
                fr.loc[k] = val(v)
        for oid in list(self.st.heap):
            o = self.st.heap[oid]
            if isinstance(o, (Obj, ExtObj)):
                new = {k: val(v) for k, v in o.attrs.items()}
                if any(new[k] is not o.attrs[k] for k in new):
                    self.st.mut(oid).attrs = new
            elif isinstance(o, ListObj):
                if o.items is not None:
                    new = [val(v) for v in o.items]
                    if any(x is not y for x, y in zip(new, o.items)):
                        self.st.mut(oid).items = new
                if o.elem is not None or o.len is not None:
                    e = val(o.elem) if o.elem is not None else None
                    ln = pl(o.len)
                    if e is not o.elem or ln != o.len:
                        o2 = self.st.mut(oid)
                        o2.elem, o2.len = e, ln
            elif isinstance(o, DictObj):
                new = {k: val(v) for k, v in o.d.items()}
                if any(new[k] is not o.d[k] for k in new):
                    self.st.mut(oid).d = new

    # ------------------------------------------------------------ heap
    def alloc(self, obj, site):
        base = "%s@%s" % (site, "/".join(str(f.line) for f in self.st.frames[-3:]))
        k = 0
        while k < 2 and (base, k) in self.st.heap:
            k += 1
        if k == 2:
            k = 1
        oid = (base, k)
        self.st.heap[oid] = obj
        self.st.own.add(oid)
        return Ref(oid)

    def new_list(self, items=None, elem=None, length=None, node=None):
        return self.alloc(ListObj(items, elem, length), "L%s:%s" % (getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))

    def new_dict(self, d=None, node=None, **k):
        return self.alloc(DictObj(d, **k), "D%s:%s" % (getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))

    def new_ext(self, kind, attrs=None, f=None, node=None):
        return self.alloc(ExtObj(kind, attrs, f), "X%s:%s:%s" % (kind, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))

    # ------------------------------------------------------------ blocks
    def exec_block(self, stmts, state, table):
        cur = [state]
        done = []
        for s in stmts:
            nxt = []
            for st in cur:
                for out in self.exec_stmt(s, st, table):
                    if out[0] == "n":
                        nxt.append(out[1])
                    else:
                        done.append(out)
            cur = self.merge(nxt, table.get(id(s)))
            if len(done) > 12:
                done = self.squeeze(done)
            if not cur:
                break
        return self.squeeze(done) + [("n", st, None) for st in cur]

    def squeeze(self, outs):
        """merge outcomes of the same kind"""
        seen = {}
        rest = []
        rets = []
        brk = {"b": [], "c": []}
        for o in outs:
            if o[0] == "raise":
                k = (o[2].exc, id(o[2].node), o[2].where)
                if k not in seen:
                    seen[k] = o
            elif o[0] == "ret":
                rets.append((o[1], o[2]))
            elif o[0] in brk:
                brk[o[0]].append(o[1])
            else:
                rest.append(o)
        out = list(seen.values())
        for st, v in self.merge_vals(rets):
            out.append(("ret", st, v))
        for k, sts in brk.items():
            for st in self.merge(sts, None):
                out.append((k, st, None))
        return out + rest

    def merge(self, states, live, cap=MAXSTATES):
        if len(states) <= 1:
            return states
        out = []
        for s in states:
            for i, t in enumerate(out):
                j = jstate(t, s, live=live)
                if j is not None:
                    out[i] = j
                    break
            else:
                out.append(s)
        while len(out) > cap:
            b = out.pop()
            a = out.pop()
            out.append(jstate(a, b, force=True, live=live))
        return out

    def merge_vals(self, pairs, cap=MAXSTATES):
        out = []
        for s, v in pairs:
            for i, (t, w) in enumerate(out):
                j = jstate(t, s, live=frozenset(), extra=(w, v))
                if j is not None:
                    out[i] = j
                    break
            else:
                out.append((s, v))
        while len(out) > cap:
            (s1, v1), (s2, v2) = out.pop(), out.pop()
            out.append(jstate(s2, s1, force=True, live=frozenset(), extra=(v2, v1)))
        return out

    def join_all(self, states, widen=False, live=None, deps=NODEPS):
        s = states[0]
        for t in states[1:]:
            s = jstate(s, t, force=True, widen=widen, live=live, deps=deps)
        return s

    def new_deps(self, head, states):
        """what the decisions taken since head depend on"""
        d = NODEPS
        for st in states:
            for t, (_, dp) in st.facts.items():
                if dp and t not in head.facts:
                    d = d | dp
        return d

    # ------------------------------------------------------------ statements
    def exec_stmt(self, s, state, table):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        state.top.line = s.lineno
        if self.tracing:
            self.visited.add((state.top.mod.path, s.lineno))
        if isinstance(s, ast.If):
            outs = []
            for k, st, v in self.run_choices(state, lambda: self.decide(self.eval(s.test), s.test)):
                if k == "raise":
                    outs.append((k, st, v))
                else:
                    outs.extend(self.exec_block(s.body if v else s.orelse, st, table))
            return outs
        if isinstance(s, ast.While):
            return self.exec_while(s, state, table)
        if isinstance(s, ast.For):
            outs = []
            for k, st, v in self.run_choices(state, lambda: self.eval(s.iter)):
                if k == "raise":
                    outs.append((k, st, v))
                else:
                    outs.extend(self.exec_for(s, st, v, table))
            return outs
        if isinstance(s, ast.Try):
            return self.exec_try(s, state, table)
        if isinstance(s, ast.With):
            outs = []

            def enter():
                for it in s.items:
                    c = self.eval(it.context_expr)
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, c, s)
            for k, st, v in self.run_choices(state, enter):
                if k == "raise":
                    outs.append((k, st, v))
                else:
                    outs.extend(self.exec_block(s.body, st, table))
            return outs
        if isinstance(s, ast.Break):
            return [("b", state, None)]
        if isinstance(s, ast.Continue):
            return [("c", state, None)]
        if isinstance(s, ast.Pass):
            return [("n", state, None)]
        if isinstance(s, ast.Return):
            res = self.run_choices(state, lambda: self.eval(s.value) if s.value is not None else Const(None))
            return [("raise", st, v) if k == "raise" else ("ret", st, v) for k, st, v in res]
        res = self.run_choices(state, lambda: self.simple(s))
        return [("raise", st, v) if k == "raise" else ("n", st, None) for k, st, v in res]

    def exec_try(self, s, state, table):
        outs = []
        pre = state.copy()
        body = self.exec_block(s.body, state, table)
        handled = False
        for o in body:
            if o[0] == "raise":
                h = self.match_handler(s.handlers, o[2])
                if h is None:
                    outs.append(o)
                else:
                    handled = True
                    st = o[1]
                    if h.name:
                        st = st.copy()
                        st.top.loc[h.name] = Opaque("exception")
                    outs.extend(self.exec_block(h.body, st, table))
            elif o[0] == "n" and s.orelse:
                outs.extend(self.exec_block(s.orelse, o[1], table))
            else:
                outs.append(o)
        if not handled:
            # external calls in the body may raise on some data
            for h in s.handlers:
                st = pre.copy()
                if h.name:
                    st.top.loc[h.name] = Opaque("exception")
                outs.extend(self.exec_block(h.body, st, table))
                break
        if s.finalbody:
            fin = []
            for o in outs:
                for f in self.exec_block(s.finalbody, o[1], table):
                    fin.append((o[0], f[1], o[2]) if f[0] == "n" else f)
            outs = fin
        return outs

    def match_handler(self, handlers, e):
        bases = _exc_bases(e.exc) if not isinstance(e.val, Cls) else {e.exc, "Exception", "BaseException"} | self.cls_names(e.val)
        for h in handlers:
            if h.type is None:
                return h
            names = [x for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            for x in names:
                nm = x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "?")
                if nm in bases:
                    return h
        return None

    def cls_names(self, c):
        out = {c.name}
        for b in c.bases:
            if isinstance(b, Cls):
                out |= self.cls_names(b)
            elif isinstance(b, Ext):
                out |= _exc_bases(b.path.rpartition(".")[2])
        return out

    def _exec_while(self, s, state, table):
        outs = []
        exits = []
        live = table.get(id(s), frozenset()) | self.loop_names(s)

        def cond(st):
            t, f = [], []
            for k, st2, v in self.run_choices(st, lambda: self.decide(self.eval(s.test), s.test)):
                if k == "raise":
                    outs.append((k, st2, v))
                elif v:
                    t.append(st2)
                else:
                    f.append(st2)
            return t, f

        def body(sts):
            back = []
            for st in sts:
                for o in self.exec_block(s.body, st, table):
                    if o[0] in ("n", "c"):
                        back.append(o[1])
                    elif o[0] == "b":
                        brk.append(o[1])
                    else:
                        outs.append(o)
            return back
        brk = []
        t, f = cond(state)
        exits += f
        back = body(t)
        if back:
            head = self.join_all(back, live=live)
            ctl = NODEPS
            for it in range(6):
                brk_n, outs_n = len(brk), len(outs)
                t, f = cond(head)
                b2 = body(t)
                # how often the loop runs depends on what decides that it goes on or ends
                ctl = ctl | self.new_deps(head, f + brk[brk_n:])
                new = self.join_all([head] + b2, widen=it >= 1, live=live, deps=ctl) if b2 else head
                if not b2 or ssig(new, live) == ssig(head, live):
                    break
                head = new
                if it < 5:
                    del brk[brk_n:]
                    del outs[outs_n:]
            exits += f
        if s.orelse:
            ex2 = []
            for st in exits:
                for o in self.exec_block(s.orelse, st, table):
                    if o[0] == "n":
                        ex2.append(o[1])
                    else:
                        outs.append(o)
            exits = ex2
        exits = self.merge(exits + brk, table.get(id(s)))
        return self.squeeze(outs) + [("n", st, None) for st in exits]

    def loop_names(self, s):
        k = ("ln", id(s))
        if k not in self.live:
            from .loader import names_loaded
            self.live[k] = names_loaded(s)
        return self.live[k]

    def exec_for(self, s, state, itv, table):
        self.loops += 1
        try:
            return self._exec_for(s, state, itv, table)
        finally:
            self.loops -= 1

    def exec_while(self, s, state, table):
        self.loops += 1
        try:
            return self._exec_while(s, state, table)
        finally:
            self.loops -= 1

    def _exec_for(self, s, state, itv, table):
        outs = []
        live = table.get(id(s), frozenset()) | self.loop_names(s)
        items = self.exact_items(itv, state)
        if items is not None and (len(items) <= 12 or len(items) <= 64 and all(isinstance(x, Const) for x in items)):
            cur = [state]
            brk = []
            for it in items:
                nxt = []
                for st in cur:
                    st = st.copy()
                    for k, st2, v in self.run_choices(st, lambda it=it: self.assign(s.target, it, s)):
                        if k == "raise":
                            outs.append((k, st2, v))
                            continue
                        for o in self.exec_block(s.body, st2, table):
                            if o[0] in ("n", "c"):
                                nxt.append(o[1])
                            elif o[0] == "b":
                                brk.append(o[1])
                            else:
                                outs.append(o)
                cur = self.merge(nxt, live)
                if not cur:
                    break
            exits = cur
        else:
            self.st = state
            elem, last, atleast1, facts = self.iter_elem(itv, state)
            brk = []
            head = state
            early = []

            def body(st, el, fcts):
                back = []
                st = st.copy()
                st.sym = st.sym + tuple(fcts)
                for k, st2, v in self.run_choices(st, lambda: self.assign(s.target, el, s)):
                    if k == "raise":
                        outs.append((k, st2, v))
                        continue
                    for o in self.exec_block(s.body, st2, table):
                        if o[0] in ("n", "c"):
                            back.append(o[1])
                        elif o[0] == "b":
                            brk.append(o[1])
                        else:
                            outs.append(o)
                return back
            if isinstance(itv, Arr) and itv.f.term is not None and itv.f.term.op == "arangeP":
                itv = Rng(itv.f.term.args[0], itv.f.term.args[1], 1, itv.f)
            if isinstance(itv, Rng) and itv.step == 1 and atleast1 and self.loops < self.peel:
                # first pass on its own
                first = Num("int", poly=itv.a, f=F(DIMLESS, elem.f.rows, itv.f.deps, T("dim", itv.a)))
                back = body(state, first, ())
                more = state.cmp(itv.b - itv.a, ONE)
                if not back:
                    head = None
                else:
                    head = self.join_all(back, live=live)
                    if 0 in more:
                        early = [head]
                    atleast1 = 0 not in more
                    elem, last, _, facts = self.iter_elem(Rng(itv.a + 1, itv.b, 1, itv.f), head)
                    if more == {0}:
                        head = None
            ctl = itv.f.deps
            for it in range(6 if head is not None else 0):
                bn, on = len(brk), len(outs)
                back = body(head, elem, facts)
                if not back:
                    break
                ctl = ctl | self.new_deps(head, brk[bn:])
                new = self.join_all([head] + back, widen=it >= 1, live=live, deps=ctl)
                if ssig(new, live) == ssig(head, live):
                    break
                head = new
                if it < 5:
                    del brk[bn:]
                    del outs[on:]
            if head is None:
                exits = early
            elif atleast1:
                exits = body(head, last, ())
            elif early:
                exits = early + body(head, last, ())
            else:
                exits = [head]
        if s.orelse:
            ex2 = []
            for st in exits:
                for o in self.exec_block(s.orelse, st, table):
                    if o[0] == "n":
                        ex2.append(o[1])
                    else:
                        outs.append(o)
            exits = ex2
        exits = self.merge(exits + brk, table.get(id(s)))
        return self.squeeze(outs) + [("n", st, None) for st in exits]

    def exact_items(self, v, state=None):
        st = state or self.st
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Const) and isinstance(v.v, str):
            return [Const(c) for c in v.v]
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, ListObj) and o.items is not None:
                return list(o.items)
            if isinstance(o, DictObj) and not o.open and not any(isinstance(x, Union) and UNDEF in x.opts for x in o.d.values()):
                return [const_of(k) for k in o.d]
        if isinstance(v, Rng):
            a, b, s = v.a.cval(), v.b.cval(), v.step
            if a is not None and b is not None and s:
                return [num(i) for i in range(int(a), int(b), s)]
        if isinstance(v, Arr) and v.f.term is not None and v.f.term.op == "arange" and all(isinstance(x, int) for x in v.f.term.args):
            return [num(i).w(npy=True) for i in range(*v.f.term.args)]
        return None

    def iter_elem(self, v, state):
        """(generic element, last element, at least one iteration?, facts)"""
        st = state
        if isinstance(v, Arr) and v.f.term is not None and v.f.term.op == "arangeP":
            v = Rng(v.f.term.args[0], v.f.term.args[1], 1, v.f)
        if isinstance(v, Rng):
            s = v.step or 1
            k = "i%d" % uid()
            if s > 0:
                e = v.a + Poly.sym(k) * s
                fact = v.b - 1 - e
                last = v.b - 1 if s == 1 else None
            else:
                e = v.a - Poly.sym(k) * (-s)
                fact = e - v.b - 1
                last = v.b + 1 if s == -1 else None
            d = (v.b - v.a) if s > 0 else (v.a - v.b)
            al = not (st.cmp(d, ZERO) & {0, -1})
            case = self.is_case(v.b - v.a)
            rows = UNKROWS if case else NOROWS
            mk = lambda p: Num("int", poly=p, f=F(DIMLESS, rows, v.f.deps, T("dim", p)))
            el = mk(e)
            la = mk(last) if last is not None else el
            return el, la, al, (fact,)
        el, al = self.elem_of(v)
        return el, el, al, ()

    def is_case(self, p):
        return bool(p.syms() & self.casesyms)

    def elem_of(self, v):
        if isinstance(v, Seq):
            return v.elem, v.len is not None and not (self.st.cmp(v.len, ZERO) & {0, -1})
        if isinstance(v, Ref):
            o = self.st.get(v.oid)
            if isinstance(o, ListObj):
                if o.items:
                    e = o.items[0]
                    for x in o.items[1:]:
                        e = jval(e, x, Ctx())
                    return e, True
                return (o.elem if o.elem is not None else Top()), o.len is not None and not (self.st.cmp(o.len, ZERO) & {0, -1})
            if isinstance(o, DictObj):
                return Str(), False
        if isinstance(v, Arr):
            e = self.ext.index(self, v, [Num("int", f=F(DIMLESS, UNKROWS if 0 in v.f.rows[1] else NOROWS))], None)
            al = v.shape is not None and len(v.shape) > 0 and not (self.st.cmp(v.shape[0], ZERO) & {0, -1})
            return e, al
        if isinstance(v, Tup):
            e = v.items[0]
            for x in v.items[1:]:
                e = jval(e, x, Ctx())
            return e, True
        if isinstance(v, Rng):
            return Num("int", f=F(DIMLESS)), False
        return Top(v.f.deps), False

    # ------------------------------------------------------------ simple statements
    def simple(self, s):
        if isinstance(s, ast.Expr):
            self.eval(s.value)
        elif isinstance(s, ast.Assign):
            v = self.eval(s.value)
            for t in s.targets:
                self.assign(t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.eval(s.value), s)
        elif isinstance(s, ast.AugAssign):
            self.augassign(s)
        elif isinstance(s, ast.Raise):
            exc, val = "Exception", None
            if s.exc is not None:
                v = self.eval(s.exc)
                if isinstance(v, Ref):
                    o = self.st.get(v.oid)
                    val = o.cls if isinstance(o, Obj) else None
                    exc = o.cls.name if isinstance(o, Obj) else o.kind
                elif isinstance(v, Cls):
                    exc, val = v.name, v
                elif isinstance(v, Ext):
                    exc = v.path.rpartition(".")[2]
                elif isinstance(v, Opaque):
                    exc = str(v.tag)
            raise AbsRaise(exc, "", s, "explicit", self.where(s), val)
        elif isinstance(s, ast.Assert):
            if not self.decide(self.eval(s.test), s.test):
                raise AbsRaise("AssertionError", "", s, "explicit", self.where(s))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if t.id not in self.st.top.loc or self.st.top.loc[t.id] is UNDEF:
                        self.err("NameError", "name '%s' is not defined" % t.id, t)
                    del self.st.top.loc[t.id]
                elif isinstance(t, ast.Attribute):
                    o = self.eval(t.value)
                    self.del_attr(o, t.attr, t)
                elif isinstance(t, ast.Subscript):
                    o = self.eval(t.value)
                    k = self.eval(t.slice)
                    if isinstance(o, Ref):
                        ob = self.st.get(o.oid)
                        self.touch(o, "del", t)
                        ob = self.st.mut(o.oid)
                        if isinstance(ob, DictObj):
                            kk = pykey(k)
                            if kk in ob.d:
                                del ob.d[kk]
                            elif not ob.open and kk is not None:
                                self.err("KeyError", repr(kk), t)
                        elif isinstance(ob, ListObj):
                            if ob.items is not None and isinstance(k, Num) and k.c is not None and -len(ob.items) <= k.c < len(ob.items):
                                del ob.items[int(k.c)]
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            self.do_import(s)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.st.top.loc[s.name] = self.make_func(s)
        elif isinstance(s, ast.ClassDef):
            self.st.top.loc[s.name] = self.make_class(s)
        elif isinstance(s, ast.Global):
            fr = self.st.top
            g = fr.loc.get("__globals__")
            cur = set(g.v) if g is not None else set()
            fr.loc["__globals__"] = Const(tuple(sorted(cur | set(s.names))))
        elif isinstance(s, ast.Nonlocal):
            pass
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
            # module level compound statement
            for o in self.exec_stmt(s, self.st, {}):
                if o[0] == "n":
                    self.st = o[1]
        else:
            self.emit("unmodelled-stmt", s, what=type(s).__name__)

    def make_func(self, s, owner=None):
        defaults = [self.shared_default(self.eval(d), s, i) for i, d in enumerate(s.args.defaults)]
        kwd = [self.shared_default(self.eval(d), s, "k%d" % i) if d is not None else None for i, d in enumerate(s.args.kw_defaults)]
        kind = None
        wrap = None
        for d in getattr(s, "decorator_list", []):
            nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if nm in ("classmethod", "staticmethod", "property", "setter"):
                kind = nm
            else:
                wrap = d
        fr = self.st.top
        clo = None
        if fr.fid[0] != "mod" and not fr.fn.startswith("<class"):
            clo = (fr.fid, dict(fr.loc), fr.parent)
        f = Func(s, fr.mod, clo, tuple(defaults), tuple(kwd), None, owner, getattr(s, "name", "<lambda>"), kind)
        return f

    def shared_default(self, v, s, i):
        if isinstance(v, Ref):
            o = self.st.mut(v.oid)
            if o.tag is None:
                o.tag = "default:%s#%s" % (getattr(s, "name", "lambda"), i)
        elif isinstance(v, Arr):
            v = v.w(bufs=v.bufs | {("shared", "default:%s#%s" % (getattr(s, "name", "lambda"), i))})
        return v

    def make_class(self, s):
        bases = [self.eval(b) for b in s.bases]
        c = Cls(s, self.st.top.mod, bases, {})
        fr = Frame(("cls", s.name), {}, self.st.top.mod, "<class %s>" % s.name)
        self.st.frames.append(fr)
        try:
            for b in s.body:
                if isinstance(b, (ast.FunctionDef,)):
                    fr = self.st.frames[-1]
                    self.st.frames.pop()
                    f = self.make_func(b, owner=c)
                    self.st.frames.append(fr)
                    fr.loc[b.name] = f
                else:
                    self.simple(b)
        finally:
            fr = self.st.frames.pop()
        for k, v in fr.loc.items():
            if isinstance(v, Ref):
                o = self.st.mut(v.oid)
                if o.tag is None:
                    o.tag = "classattr:%s.%s" % (s.name, k)
        c.ns.update(fr.loc)
        return c

    def do_import(self, s):
        fr = self.st.top
        if isinstance(s, ast.Import):
            for a in s.names:
                top = a.name.split(".")[0]
                if top == self.prog.pkg:
                    m = self.prog.modules.get(a.name if a.asname else top)
                    if m is None:
                        self.err("ModuleNotFoundError", a.name, s)
                    self.load(m)
                    fr.loc[a.asname or top] = ModV(m)
                else:
                    fr.loc[a.asname or top] = Ext(self.ext.norm_path(a.name if a.asname else top))
            return
        if s.level:
            base = fr.mod.package.split(".")
            base = base[:len(base) - (s.level - 1)]
            name = ".".join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        if name == self.prog.pkg or name.startswith(self.prog.pkg + "."):
            m = self.prog.modules.get(name)
            if m is None:
                self.err("ModuleNotFoundError", name, s)
            self.load(m)
            for a in s.names:
                if a.name == "*":
                    al = m.ns.get("__all__")
                    names = None
                    if isinstance(al, Ref):
                        names = [x.v for x in self.st.get(al.oid).items]
                    for k, v in list(m.ns.items()):
                        if (names is None and not k.startswith("_")) or (names is not None and k in names):
                            fr.loc[k] = v
                elif a.name in m.ns:
                    fr.loc[a.asname or a.name] = m.ns[a.name]
                elif name + "." + a.name in self.prog.modules:
                    mm = self.prog.modules[name + "." + a.name]
                    self.load(mm)
                    fr.loc[a.asname or a.name] = ModV(mm)
                else:
                    self.err("ImportError", "cannot import name '%s' from '%s'" % (a.name, name), s)
        else:
            for a in s.names:
                if a.name == "*":
                    continue
                if name == "__future__":
                    continue
                fr.loc[a.asname or a.name] = Ext(self.ext.norm_path(name + "." + a.name))

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            g = self.st.top.loc.get("__globals__")
            if g is not None and t.id in g.v:
                self.emit("global-write", node, name=t.id)
                return
            self.st.top.loc[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, node)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value), t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            recv = self.eval(t.value)
            idx = self.eval_index(t.slice)
            self.store(recv, idx, v, node, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)

    def unpack(self, elts, v, node):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.exact_items(v)
        if items is None and isinstance(v, Arr) and v.shape is not None and v.shape and v.shape[0].cval() is not None:
            nn = int(v.shape[0].cval())
            if nn <= 12:
                items = [self.ext.index(self, v, [num(i)], node) for i in range(nn)]
        if items is not None:
            if not star:
                if len(items) != len(elts):
                    self.err("ValueError", "cannot unpack %d values into %d names" % (len(items), len(elts)), node)
                for e, x in zip(elts, items):
                    self.assign(e, x, node)
                return
            i = star[0]
            aft = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                self.err("ValueError", "not enough values to unpack", node)
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, node)
            self.assign(elts[i].value, self.new_list(items[i:len(items) - aft], node=node), node)
            for e, x in zip(elts[i + 1:], items[len(items) - aft:]):
                self.assign(e, x, node)
            return
        if isinstance(v, Union):
            js = None
            cols = None
            for o in v.opts:
                its = self.exact_items(o)
                if its is None or len(its) != len(elts):
                    cols = None
                    break
                cols = its if cols is None else [jval(a, b, Ctx()) for a, b in zip(cols, its)]
            if cols:
                for e, x in zip(elts, cols):
                    self.assign(e, x, node)
                return
        if isinstance(v, (TopT, Opaque, Union, Seq, Ref, Arr, Num, Str)):
            e0 = Top(v.f.deps)
            if isinstance(v, (Seq, Ref, Arr)):
                e0, _ = self.elem_of(v)
            for e in elts:
                self.assign(e, e0, node)
            return
        self.err("TypeError", "cannot unpack non-iterable", node)

    def touch(self, ref, what, node):
        """mutation of a heap container or instance"""
        o = self.st.get(ref.oid)
        self.emit("mutate", node, tag=o.tag, what=what, oid=ref.oid)

    def set_attr(self, o, name, v, node):
        if isinstance(o, Union):
            for x in o.opts:
                if x is not UNDEF:
                    self.set_attr(x, name, v, node)
            return
        if isinstance(o, Ref):
            ob = self.st.get(o.oid)
            if isinstance(ob, (Obj, ExtObj)):
                self.emit("setattr", node, tag=ob.tag, attr=name, oid=o.oid, same=same_value(ob.attrs.get(name), v), new=ob.attrs.get(name, UNDEF) is UNDEF)
                if isinstance(ob, Obj):
                    c = self.lookup_cls(ob.cls, name)
                    if isinstance(c, Func) and c.kind == "setter":
                        self.call_func(Func(c.node, c.mod, c.closure, c.defaults, c.kwdefaults, o, c.owner, c.name), [v], {}, node)
                        return
                self.st.mut(o.oid).attrs[name] = v
                return
        if isinstance(o, Ext):
            self.emit("ext-setattr", node, path=o.path + "." + name)
            return
        if isinstance(o, (Cls, ModV, Func)):
            self.emit("global-write", node, name="%r.%s" % (o, name))
            return
        if isinstance(o, Arr):
            self.ext.arr_setattr(self, o, name, v, node)
            return
        if isinstance(o, Meth) and o.name == "flags" and isinstance(o.recv, Arr):
            self.ext.rehead(self, o.recv, None, "flags", node)
            return
        if isinstance(o, Const) and o.v is None:
            self.err("AttributeError", "'NoneType' object has no attribute '%s'" % name, node)

    def del_attr(self, o, name, node):
        if isinstance(o, Ref):
            ob = self.st.get(o.oid)
            if isinstance(ob, Obj):
                if ob.attrs.get(name, UNDEF) is UNDEF:
                    self.err("AttributeError", name, node)
                self.emit("setattr", node, tag=ob.tag, attr=name, oid=o.oid)
                self.st.mut(o.oid).attrs.pop(name, None)

    def augassign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, t)
            rhs = self.eval(s.value)
            new = self.inplace(cur, rhs, s.op, s)
            if new is not None:
                self.assign(t, new, s)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.get_attr(o, t.attr, t)
            rhs = self.eval(s.value)
            new = self.inplace(cur, rhs, s.op, s)
            if new is not None:
                self.set_attr(o, t.attr, new, s)
            else:
                self.emit("aug-attr", s, attr=t.attr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            idx = self.eval_index(t.slice)
            cur = self.load_sub(o, idx, t)
            rhs = self.eval(s.value)
            if isinstance(cur, Ref):
                new = self.inplace(cur, rhs, s.op, s)
                if new is None:
                    new = cur
            else:
                new = self.binop(s.op, cur, rhs, s)
            self.store(o, idx, new, s, t)

    def inplace(self, cur, rhs, op, node):
        """returns the new value to bind, or None when the object was updated in place"""
        if isinstance(cur, Union):
            opts = [o for o in cur.opts if o is not UNDEF]
            vals = []
            for o in opts:
                r = self.inplace(o, rhs, op, node)
                vals.append(o if r is None else r)
            return mkunion(vals, Ctx()) if vals else Top()
        if isinstance(cur, Arr) and cur.cont in ("nd", "mat", "series", "frame", "?"):
            res = self.binop(op, cur, rhs, node)
            if isinstance(res, Arr):
                if cur.shape is not None and res.shape is not None and len(cur.shape) != len(res.shape) and cur.cont == "nd":
                    if len(res.shape) > len(cur.shape):
                        self.err("ValueError", "non-broadcastable output operand in in-place operation", node)
                elif cur.shape is not None and res.shape is not None and cur.cont == "nd":
                    for a, b in zip(cur.shape, res.shape):
                        if a != b and self.ext.generic(a) and self.ext.generic(b):
                            self.err("ValueError", "non-broadcastable output operand with shape %s" % (cur.shape,), node)
                new = cur.w(f=res.f, lo=res.lo, hi=res.hi)
                self.ext.write(self, cur, new, node, full=True)
                return new
            return res
        if isinstance(cur, Ref):
            o = self.st.get(cur.oid)
            if isinstance(o, ListObj) and isinstance(op, ast.Add):
                self.touch(cur, "+=", node)
                self.ext.list_extend(self, cur, rhs)
                return None
            if isinstance(o, DictObj) and isinstance(op, ast.BitOr):
                self.touch(cur, "|=", node)
                self.ext.dict_update(self, cur, rhs)
                return None
        return self.binop(op, cur, rhs, node)

    # ------------------------------------------------------------ names
    def load_name(self, name, node):
        fr = self.st.top
        v = fr.loc.get(name)
        if v is not None and v is not UNDEF:
            if isinstance(v, Union) and UNDEF in v.opts:
                rest = [o for o in v.opts if o is not UNDEF]
                self.emit("maybe-undef", node, name=name)
                return rest[0] if len(rest) == 1 else Union(rest)
            return v
        par = fr.parent
        while par is not None:
            fid, snap, up = par
            for f in reversed(self.st.frames):
                if f.fid == fid:
                    v = f.loc.get(name)
                    break
            else:
                v = snap.get(name)
            if v is not None and v is not UNDEF:
                return v
            par = up
        if v is UNDEF or (fr.fid[0] != "mod" and name in self.local_names(fr)):
            self.err("UnboundLocalError", "local variable '%s' referenced before assignment" % name, node)
        v = fr.mod.ns.get(name)
        if v is not None:
            return v
        if hasattr(_b, name):
            return Ext("builtins." + name)
        if name in ("__name__", "__file__"):
            return Str()
        self.err("NameError", "name '%s' is not defined" % name, node)

    def local_names(self, fr):
        return fr.loc.get("__locals__", Const(())).v if "__locals__" in fr.loc else ()

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.emit("unmodelled-expr", e, what=type(e).__name__)
            return Top()
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return Const(v)
        if isinstance(v, complex):
            return Num("num", f=F(DIMLESS))
        return num(v)

    def e_Name(self, e):
        return self.load_name(e.id, e)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Tuple(self, e):
        return Tup(self.eval_list(e.elts))

    def eval_list(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                its = self.exact_items(v)
                if its is None:
                    el, _ = self.elem_of(v)
                    its = [el]
                out.extend(its)
            else:
                out.append(self.eval(x))
        return out

    def e_List(self, e):
        return self.new_list(self.eval_list(e.elts), node=e)

    def e_Set(self, e):
        items = self.eval_list(e.elts)
        el = None
        for x in items:
            el = x if el is None else jval(el, x, Ctx())
        return self.new_ext("set", {"elem": el or Top(), "items": Tup(items)}, F(), e)

    def e_Dict(self, e):
        ref = self.new_dict({}, node=e)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v)
                self.ext.dict_update(self, ref, src)
            else:
                kv = self.eval(k)
                vv = self.eval(v)
                self.ext.dict_set(self, ref, kv, vv)
        return ref

    def e_JoinedStr(self, e):
        vs = [self.eval(v.value) for v in e.values if isinstance(v, ast.FormattedValue)]

        def build(*vs):
            it, out = iter(vs), []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    out.append(v.value)
                    continue
                k, x = self.ext.plain(next(it))
                if not k or v.format_spec is not None or v.conversion not in (-1, 115):
                    return Str(F(deps=self.ext.alldeps(vs)))
                out.append(str(x))
            return self.ext.text("".join(out), *vs)
        if len(vs) <= 2 and any(isinstance(v, Union) for v in vs):
            if len(vs) == 1:
                return self.over_union(lambda x: build(x), vs[0])
            return self.over_union(lambda x, y: build(x, y), *vs)
        return build(*vs)

    def e_FormattedValue(self, e):
        return Str(F(deps=self.eval(e.value).f.deps))

    def e_Lambda(self, e):
        return self.make_func(e)

    def e_IfExp(self, e):
        return self.eval(e.body if self.decide(self.eval(e.test), e.test) else e.orelse)

    def e_BoolOp(self, e):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x)
            if i == len(e.values) - 1:
                return v
            t = self.decide(v, x)
            if isinstance(e.op, ast.And) and not t:
                return v if self.truth(v) is not None else Const(False, F(DIMLESS, deps=v.f.deps, term=T("c", "False")))
            if isinstance(e.op, ast.Or) and t:
                return v if self.truth(v) is not None or not isinstance(v, Num) or v.ity != "bool" else Const(True, F(DIMLESS, deps=v.f.deps, term=T("c", "True")))
        return v

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            if t is not None:
                return Const(not t, F(DIMLESS, deps=v.f.deps, term=T("c", repr(not t))))
            return Num("bool", lo=0, hi=1, f=F(DIMLESS, allrows(v.f.rows), v.f.deps, neg(v.f.term)))
        return self.ext.unop(self, e.op, v, e)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(e.op, a, b, e)

    def binop(self, op, a, b, node):
        if isinstance(a, Union) or isinstance(b, Union):
            return self.over_union(lambda x, y: self.binop(op, x, y, node), a, b)
        return self.ext.binop(self, op, a, b, node)

    def over_union(self, fn, *vs):
        """apply fn to each combination of union members and join; errors only when all fail"""
        combos = [()]
        for v in vs:
            opts = [o for o in v.opts if o is not UNDEF] if isinstance(v, Union) else [v]
            combos = [c + (o,) for c in combos for o in opts]
        res, ex = [], None
        for c in combos[:12]:
            try:
                res.append(fn(*c))
            except AbsRaise as e:
                ex = e
        if not res:
            raise ex
        return mkunion(res, Ctx()) if len(res) > 1 else res[0]

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c)
            r = self.ext.compare(self, op, left, right, e)
            if res is None:
                res = r
            else:
                if not self.decide(res, e):
                    return Const(False, F(DIMLESS, deps=res.f.deps, term=T("c", "False")))
                res = r
            left = right
        return res

    def e_Attribute(self, e):
        return self.get_attr(self.eval(e.value), e.attr, e)

    def get_attr(self, v, name, node):
        if isinstance(v, Union):
            return self.over_union(lambda x: self.get_attr(x, name, node), v)
        if isinstance(v, Ref):
            o = self.st.get(v.oid)
            if isinstance(o, Obj):
                a = o.attrs.get(name)
                if a is not None and a is not UNDEF:
                    if isinstance(a, Union) and UNDEF in a.opts:
                        self.emit("maybe-unset", node, attr=name, tag=o.tag)
                        rest = [x for x in a.opts if x is not UNDEF]
                        return rest[0] if len(rest) == 1 else Union(rest)
                    if self.hooks.get("getattr"):
                        self.hooks["getattr"](self, v, o, name, a, node)
                    return a
                c = self.lookup_cls(o.cls, name)
                if c is not None:
                    if isinstance(c, Func):
                        if c.kind == "property":
                            return self.call_func(bind(c, v), [], {}, node)
                        if c.kind == "staticmethod":
                            return c
                        if c.kind == "classmethod":
                            return bind(c, o.cls)
                        return bind(c, v)
                    return c
                r = self.ext.est_attr(self, v, o, name, node)
                if r is not None:
                    return r
                self.err("AttributeError", "'%s' object has no attribute '%s'" % (o.cls.name, name), node)
            if isinstance(o, ExtObj):
                if name in o.attrs:
                    return o.attrs[name]
                return Meth(v, name)
            return Meth(v, name)
        if isinstance(v, ModV):
            if name in v.mod.ns:
                return v.mod.ns[name]
            sub = self.prog.modules.get(v.mod.name + "." + name)
            if sub is not None:
                return ModV(sub)
            self.err("AttributeError", "module has no attribute '%s'" % name, node)
        if isinstance(v, Cls):
            c = self.lookup_cls(v, name)
            if c is not None:
                if isinstance(c, Func) and c.kind == "classmethod":
                    return bind(c, v)
                return c
            if name in ("__name__", "__qualname__"):
                return Const(v.name)
            return Meth(v, name)
        if isinstance(v, Ext):
            return self.ext.ext_attr(self, v, name, node)
        if isinstance(v, Func):
            if name == "__name__":
                return Const(v.name)
            return Meth(v, name)
        if isinstance(v, Const) and v.v is None:
            self.err("AttributeError", "'NoneType' object has no attribute '%s'" % name, node)
        return self.ext.val_attr(self, v, name, node)

    def lookup_cls(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Cls) and name in k.ns:
                return k.ns[name]
        return None

    def mro(self, c):
        out = [c]
        for b in c.bases:
            if isinstance(b, Cls):
                out += [x for x in self.mro(b) if x not in out]
            else:
                out.append(b)
        return out

    def e_Subscript(self, e):
        v = self.eval(e.value)
        idx = self.eval_index(e.slice)
        return self.load_sub(v, idx, e)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return self.eval_slice(s)
        if isinstance(s, ast.Tuple):
            return Tup([self.eval_slice(x) if isinstance(x, ast.Slice) else self.eval(x) for x in s.elts])
        return self.eval(s)

    def e_Slice(self, s):
        return self.eval_slice(s)

    def eval_slice(self, s):
        n = Const(None)
        return Slice(self.eval(s.lower) if s.lower else n, self.eval(s.upper) if s.upper else n, self.eval(s.step) if s.step else n)

    def load_sub(self, v, idx, node):
        if isinstance(v, Union):
            return self.over_union(lambda x: self.load_sub(x, idx, node), v)
        return self.ext.load_sub(self, v, idx, node)

    def store(self, recv, idx, v, node, t):
        if isinstance(recv, Union):
            for o in recv.opts:
                if o is not UNDEF:
                    self.store(o, idx, v, node, t)
            return
        self.ext.store_sub(self, recv, idx, v, node)

    def e_Starred(self, e):
        return self.eval(e.value)

    # comprehensions
    def e_ListComp(self, e):
        its, el, ln = self.comp(e.generators, lambda: self.eval(e.elt), e)
        if its is not None:
            return self.new_list(its, node=e)
        return self.new_list(None, el, ln, node=e)

    def e_GeneratorExp(self, e):
        its, el, ln = self.comp(e.generators, lambda: self.eval(e.elt), e)
        if its is not None:
            return Tup(its)
        return Seq(el, ln)

    def e_SetComp(self, e):
        its, el, ln = self.comp(e.generators, lambda: self.eval(e.elt), e)
        x = el
        for i in its or []:
            x = i if x is None else jval(x, i, Ctx())
        return self.new_ext("set", {"elem": x or Top()}, F(), e)

    def e_DictComp(self, e):
        its, el, ln = self.comp(e.generators, lambda: Tup([self.eval(e.key), self.eval(e.value)]), e)
        ref = self.new_dict({}, node=e)
        if its is not None:
            for p in its:
                self.ext.dict_set(self, ref, p.items[0], p.items[1])
        else:
            o = self.st.mut(ref.oid)
            o.open = True
            o.elem = el.items[1] if isinstance(el, Tup) else Top()
        return ref

    def comp(self, gens, fn, node):
        fr = self.st.top
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        saved = {n: fr.loc.get(n) for n in names}
        r = self.comp_rec(gens, fn, node)
        fr = self.st.top
        for n, v in saved.items():
            if v is None:
                fr.loc.pop(n, None)
            else:
                fr.loc[n] = v
        return r

    def comp_rec(self, gens, fn, node):
        g = gens[0]
        itv = self.eval(g.iter)
        inner = (lambda: self.comp_inner(gens[1:], fn, node))
        items = self.exact_items(itv)
        if items is not None and len(items) <= 24:
            out = []
            exact = True
            el = None
            for it in items:
                self.assign(g.target, it, node)
                ok = True
                for c in g.ifs:
                    cv = self.eval(c)
                    t = self.truth(cv)
                    if t is None:
                        exact = False
                    elif not t:
                        ok = False
                        break
                if not ok:
                    continue
                its, e1, ln = self.joined(inner)
                if its is None:
                    exact = False
                    el = e1 if el is None else jval(el, e1, Ctx()) if e1 is not None else el
                else:
                    out.extend(its)
            if exact:
                return out, None, Poly.const(len(out))
            for x in out:
                el = x if el is None else jval(el, x, Ctx())
            return None, el if el is not None else Top(), None
        elem, last, al, facts = self.iter_elem(itv, self.st)
        ln = None
        if isinstance(itv, Rng) and itv.step == 1:
            ln = itv.b - itv.a
        elif isinstance(itv, Seq):
            ln = itv.len
        elif isinstance(itv, Arr) and itv.shape:
            ln = itv.shape[0]
        elif isinstance(itv, Ref):
            o = self.st.get(itv.oid)
            if isinstance(o, ListObj):
                ln = o.len
        if g.ifs or len(gens) > 1:
            ln = None
        el = None
        head = self.st
        live = None
        for it in range(4):
            self.st = head.copy()
            sv = self.st.sym
            self.st.sym = sv + tuple(facts)

            def once():
                self.assign(g.target, elem, node)
                for c in g.ifs:
                    cv = self.eval(c)
                    t = self.truth(cv)
                    if t is False:
                        return None, None, None
                return inner()
            its, e1, l1 = self.joined(once)
            for x in ([e1] if e1 is not None else []) + list(its or []):
                el = x if el is None else jval(el, x, Ctx(widen=it > 1))
            new = jstate(head, self.st, force=True, widen=it >= 1)
            new.sym = sv
            if ssig(new) == ssig(head):
                break
            head = new
        self.st = head.copy()
        return None, el if el is not None else Top(), ln

    def comp_inner(self, gens, fn, node):
        if gens:
            return self.comp_rec(gens, fn, node)
        return [fn()], None, ONE

    def joined(self, fn):
        """evaluate fn, joining all outcomes of data-dependent choices into one"""
        res = self.run_choices(self.st, fn)
        oks = [(st, v) for k, st, v in res if k == "ok"]
        if not oks:
            if not res:
                raise Infeasible()
            self.st = res[0][1]
            raise res[0][2]
        for k, st, v in res:
            if k == "raise":
                self.emit("maybe-raise", v.node, exc=v.exc, where=v.where, rk=v.kind)
        if len(oks) == 1:
            self.st = oks[0][0]
            return oks[0][1]
        st = oks[0][0]
        its, el, ln = oks[0][1] if isinstance(oks[0][1], tuple) else ([oks[0][1]], None, None)
        tup = isinstance(oks[0][1], tuple)
        for st2, v2 in oks[1:]:
            its2, el2, ln2 = v2 if tup else ([v2], None, None)
            st = jstate(st, st2, force=True)
            if its is not None and its2 is not None and len(its) == len(its2):
                its = [jval(a, b, Ctx()) for a, b in zip(its, its2)]
            else:
                allv = list(its or []) + list(its2 or []) + [x for x in (el, el2) if x is not None]
                its = None
                el = None
                for x in allv:
                    el = x if el is None else jval(el, x, Ctx())
                ln = ln if ln == ln2 else None
        self.st = st
        return (its, el, ln) if tup else its[0]

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        f = self.eval(e.func)
        args = []
        star_unknown = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                its = self.exact_items(v)
                if its is None:
                    star_unknown = self.elem_of(v)[0]
                else:
                    args.extend(its)
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(self.st.get(v.oid), DictObj):
                    o = self.st.get(v.oid)
                    for kk, vv in o.d.items():
                        if isinstance(vv, Union) and UNDEF in vv.opts:
                            rest = [x for x in vv.opts if x is not UNDEF]
                            vv = rest[0] if len(rest) == 1 else Union(rest)
                        if isinstance(kk, str):
                            kw[kk] = vv
                    if o.open:
                        kw["**"] = o.elem or Top()
                else:
                    kw["**"] = Top(v.f.deps)
            else:
                kw[k.arg] = v
        if star_unknown is not None:
            kw["*"] = star_unknown
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, node):
        if isinstance(f, Union):
            opts = [o for o in f.opts if o is not UNDEF]
            if len(opts) == 1:
                return self.call(opts[0], args, kw, node)
            c = self.o.choose(len(opts))
            return self.call(opts[c], args, kw, node)
        if isinstance(f, Func):
            return self.call_func(f, args, kw, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, Ext):
            return self.ext.call_ext(self, f.path, args, kw, node)
        if isinstance(f, Meth):
            if isinstance(f.recv, Union):
                return self.over_union(lambda r: self.ext.call_meth(self, r, f.name, args, kw, node), f.recv)
            return self.ext.call_meth(self, f.recv, f.name, args, kw, node)
        if isinstance(f, Ref):
            o = self.st.get(f.oid)
            if isinstance(o, Obj):
                c = self.lookup_cls(o.cls, "__call__")
                if c is not None:
                    return self.call_func(bind(c, f), args, kw, node)
                self.err("TypeError", "'%s' object is not callable" % o.cls.name, node)
            if isinstance(o, ExtObj):
                return self.ext.call_meth(self, f, "__call__", args, kw, node)
            self.err("TypeError", "object is not callable", node)
        if isinstance(f, Const):
            self.err("TypeError", "'%s' object is not callable" % type(f.v).__name__, node)
        if isinstance(f, Str):
            self.err("TypeError", "'str' object is not callable", node)
        if isinstance(f, (Arr, Num)):
            self.err("TypeError", "numeric object is not callable", node)
        d = f.f.deps
        for a in list(args) + list(kw.values()):
            d = d | a.f.deps
        return Top(d)

    def instantiate(self, c, args, kw, node):
        names = self.cls_names(c)
        ref = self.alloc(Obj(c), "I%s:%s" % (c.name, getattr(node, "lineno", 0)))
        init = self.lookup_cls(c, "__init__")
        if isinstance(init, Func):
            self.call_func(bind(init, ref), args, kw, node)
        return ref

    def call_func(self, f, args, kw, node):
        hs = self.hooks.get("standin")
        if hs and f.name in hs and f.self_ is None:
            loc = self.bind_args(f, args, kw, node)
            return hs[f.name](self, f, loc, node)
        si = self.standins.get(f.name)
        if si is not None and f.self_ is None and f.mod.name.endswith(si[0]):
            loc = self.bind_args(f, args, kw, node)
            self.called[f.mod.name + "." + f.name] = 1
            return si[1](self, loc, node)
        key = self.o.key()
        outs = self.o.cache.get(key)
        if outs is None:
            outs = self.run_function(f, args, kw, node)
            self.o.cache[key] = outs
        if not outs:
            raise Infeasible()
        c = self.o.choose(len(outs))
        k, st, v = outs[c]
        self.st = st.copy()
        if k == "raise":
            raise v
        return v

    def run_function(self, f, args, kw, node):
        self.depth += 1
        try:
            same = sum(1 for fr in self.st.frames if fr.fn == f.name)
            if self.depth > MAXDEPTH or same > 4:
                return [("ok", self.st.copy(), Top())]
            self.called[f.mod.name + "." + (f.owner.name + "." if getattr(f, "owner", None) is not None else "") + f.name] = 1
            st = self.st.copy()
            fr = Frame((f.name, uid()), {}, f.mod, f.name, f.closure)
            save = self.st
            self.st = st
            try:
                loc = self.bind_args(f, args, kw, node)
            except AbsRaise as e:
                return [("raise", st, e)]
            finally:
                self.st = save
            fr.loc = loc
            if self.hooks.get("enter"):
                r = self.hooks["enter"](self, f, loc, node)
                if r is not None:
                    return [("ok", st, r)]
            st.frames.append(fr)
            if isinstance(f.node, ast.Lambda):
                res = self.run_choices(st, lambda: self.eval(f.node.body))
                outs = [("raise", s, v) if k == "raise" else ("ret", s, v) for k, s, v in res]
            else:
                tb = self.live.get(id(f.node))
                if tb is None:
                    tb = self.live[id(f.node)] = liveness(f.node.body)
                    self.live[("loc", id(f.node))] = assigned_names(f.node)
                loc["__locals__"] = Const(self.live[("loc", id(f.node))])
                outs = self.exec_block(f.node.body, st, tb)
            res = []
            rets = []
            for k, s, v in outs:
                if k == "raise":
                    s = s.copy()
                    s.frames.pop()
                    res.append(("raise", s, v))
                else:
                    s = s.copy()
                    s.frames.pop()
                    rets.append((s, v if k == "ret" else Const(None)))
            out = []
            for s, v in rets:
                for i, (t, w) in enumerate(out):
                    j = jstate(t, s, live=None, extra=(w, v))
                    if j is not None:
                        out[i] = j
                        break
                else:
                    out.append((s, v))
            while len(out) > MAXSTATES:
                (s1, v1), (s2, v2) = out.pop(), out.pop()
                out.append(jstate(s2, s1, force=True, extra=(v2, v1)))
            if self.hooks.get("leave"):
                out = [(s, self.hooks["leave"](self, f, loc, s, v)) for s, v in out]
            return [("ok", s, v) for s, v in out] + res
        finally:
            self.depth -= 1

    def bind_args(self, f, args, kw, node):
        a = f.node.args
        loc = {}
        kw = dict(kw)
        starkw = kw.pop("**", None)
        star = kw.pop("*", None)
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = ([f.self_] if f.self_ is not None else []) + list(args)
        nm = f.name
        if len(args) > len(pos) and a.vararg is None:
            self.err("TypeError", "%s() takes %d positional arguments but %d were given" % (nm, len(pos), len(args)), node)
        for p, v in zip(pos, args):
            loc[p] = v
        if a.vararg is not None:
            loc[a.vararg.arg] = Tup(args[len(pos):])
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in pos or k in konly:
                if k in loc:
                    self.err("TypeError", "%s() got multiple values for argument '%s'" % (nm, k), node)
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.err("TypeError", "%s() got an unexpected keyword argument '%s'" % (nm, k), node)
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in loc:
                j = i - (len(pos) - nd)
                if star is not None or starkw is not None:
                    loc[p] = star if star is not None else starkw
                elif j >= 0:
                    loc[p] = f.defaults[j]
                else:
                    self.err("TypeError", "%s() missing required argument '%s'" % (nm, p), node)
        for i, p in enumerate(konly):
            if p not in loc:
                d = f.kwdefaults[i]
                if d is None:
                    self.err("TypeError", "%s() missing keyword-only argument '%s'" % (nm, p), node)
                loc[p] = d
        if a.kwarg is not None:
            loc[a.kwarg.arg] = self.alloc(DictObj(extra, starkw is not None, starkw), "K%s" % nm)
        return loc


def assigned_names(fn):
    out = set()
    for s in ast.walk(fn):
        if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
            out.add(s.id)
    comp = set()
    for s in ast.walk(fn):
        if isinstance(s, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in s.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        comp.add(n.id)
    real = set()
    for s in ast.walk(fn):
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.With, ast.NamedExpr)):
            ts = s.targets if isinstance(s, ast.Assign) else [x.optional_vars for x in s.items if x.optional_vars is not None] if isinstance(s, ast.With) else [s.target]
            for t in ts:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        real.add(n.id)
    g = set()
    for s in ast.walk(fn):
        if isinstance(s, ast.Global):
            g.update(s.names)
    return tuple(sorted(((out - comp) | real) - g))


def same_value(a, b):
    """is storing b over a no change at all?"""
    if a is b:
        return True
    if a is None or b is None or type(a) is not type(b):
        return False
    if isinstance(a, Arr):
        return a.vid == b.vid and a.f.term is b.f.term
    if isinstance(a, Num):
        return a.f.term is not None and a.f.term is b.f.term and a.key() == b.key()
    if isinstance(a, Const):
        return type(a.v) is type(b.v) and a.v == b.v
    if isinstance(a, Opaque):
        return a.tag == b.tag
    return not isinstance(a, (TopT, Str, Union)) and a.key() == b.key()


def bind(f, self_):
    return Func(f.node, f.mod, f.closure, f.defaults, f.kwdefaults, self_, f.owner, f.name, f.kind)


def neg(t):
    if t is None:
        return None
    return t.args[0] if t.op == "not" else T("not", t)


def pykey(v):
    """python value of a constant key, or None"""
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Num) and v.c is not None:
        return v.c
    if isinstance(v, Tup):
        ks = tuple(pykey(i) for i in v.items)
        return None if any(k is None for k in ks) else ks
    if isinstance(v, (Cls, Ext, Func)):
        return v.key()
    return None


def const_of(k):
    if isinstance(k, (int, float)) and not isinstance(k, bool):
        return num(k)
    if isinstance(k, tuple):
        return Tup([const_of(x) for x in k])
    return Const(k)


def _cterm(t):
    if isinstance(t, Term) and t.op == "c":
        try:
            v = ast.literal_eval(t.args[0])
            if isinstance(v, (int, float)):
                return v
        except Exception:
            return None
    if isinstance(t, Term) and t.op == "dim":
        c = t.args[0].cval()
        return float(c) if c is not None else None
    return None


def _polyterm(t):
    if not isinstance(t, Term):
        return None
    if t.op == "dim":
        return t.args[0]
    if t.op == "c":
        v = _cterm(t)
        if isinstance(v, int):
            return Poly.const(v)
    return None

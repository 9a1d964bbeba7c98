"""Scenario driver: abstract inputs and abstract execution of small driver scripts."""
import ast
import textwrap
from .poly import Poly, ONE
from .values import *
from .state import State, Frame, NOMERGE
from .interp import Interp, AbsRaise, Budget, Oracle
from .loader import Program, liveness, AnalysisError

S = Poly.sym
C = Poly.const


class Dims:
    """dimension layout: all symbols denote non-negative integers, so one layout
    stands for every data set of that form.  Values 0 and 1 of a dimension that
    the code treats apart have layouts of their own."""

    def __init__(self, h="g", p="g", n="tall", m="g"):
        self.h = Poly.of(h) if h != "g" else C(2) + S("c")
        self.p = Poly.of(p) if p != "g" else self.h + S("d") + (1 if h != "g" else 0)
        self.n = self.p + S("b") + 4 if n == "tall" else (self.h + S("b") + 4 if n == "wide" else Poly.of(n))
        if n == "wide":
            self.p = self.n + S("d") + 1
        self.m = Poly.of(m) if m != "g" else C(2) + S("m")
        self.case = ("b",) if n == "tall" else ()


def arr(name, shape, cont="nd", unit=None, rows=None, deps=None, dt="f", lab=None, **k):
    u = ((name, Fraction(1)),) if unit is None else unit
    if rows is None:
        rows = ("pt", frozenset([0]))
    return Arr(shape, cont, dt, frozenset([("in", name)]), None,
               f=F(u, rows, frozenset([name]) if deps is None else deps, T("in", name)), lab=lab, **k)


class Result:
    def __init__(self, I, outs, text):
        self.I, self.text = I, text
        self.ok = [o[1] for o in outs if o[0] in ("n", "ret")]
        self.raises = [o[2] for o in outs if o[0] == "raise"]
        self.rstates = [o[1] for o in outs if o[0] == "raise"]
        self.events = list(I.evlist)

    def var(self, st, name):
        return st.frames[-1].loc.get(name)

    def ev(self, *kinds):
        return [e for e in self.events if e["kind"] in kinds]


class Runner:
    def __init__(self, prog, budget=400000):
        self.prog = prog
        self.I = Interp(prog, budget)
        self.mod = _DriverMod()

    def lookup(self, dotted):
        """public object by package path"""
        m, _, n = dotted.rpartition(".")
        mod = self.prog.modules.get(m)
        if mod is None or n not in mod.ns:
            raise AnalysisError("public name %s vanished" % dotted)
        return mod.ns[n]

    def run(self, text, ns, casesyms=(), hooks=None, setup=None):
        I = self.I
        I.events.clear()
        I.evlist.clear()
        I.steps = 0
        I.hooks = hooks or {}
        NOMERGE[0] = bool(I.hooks.get("nomerge"))
        I.watch = frozenset(I.hooks.get("watch", ()))
        I.flow = frozenset(I.hooks.get("flow", ()))
        I.casesyms = frozenset(casesyms)
        I.o = Oracle((), {})
        st = I.base.copy()
        st.frames = []
        st.frames.append(Frame(("drv", 0), dict(ns), self.mod, "<scenario>"))
        I.st = st
        if setup:
            setup(I, st)
        r = self._exec(st, text)
        r.ns = ns
        return r

    def resume(self, st0, text, values):
        """continue from the end of an analysed script with other data"""
        I = self.I
        I.events.clear()
        I.evlist.clear()
        I.steps = 0
        I.o = Oracle((), {})
        st = st0.copy()
        st.frames = [st0.frames[-1].copy()]
        st.frames[-1].loc.update(values)
        I.st = st
        return self._exec(st, text)

    def _exec(self, st, text):
        I, ns = self.I, st.frames[-1].loc
        tree = ast.parse(textwrap.dedent(text))
        tb = liveness(tree.body, frozenset(["*"]))
        allnames = frozenset(n.id for n in ast.walk(tree) if isinstance(n, ast.Name)) | frozenset(ns)
        tb = {k: v | allnames for k, v in tb.items()}
        try:
            outs = I.exec_block(tree.body, st, tb)
        except Budget:
            r = Result(I, [], text)
            r.budget = True
            return r
        r = Result(I, outs, text)
        r.budget = False
        return r


class _DriverMod:
    name = "<scenario>"
    path = "<scenario>"
    package = ""
    is_pkg = False
    ns = {}

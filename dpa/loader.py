"""Loading of the package under analysis: modules, names, liveness tables."""
import ast
import os


class AnalysisError(Exception):
    """the analysis cannot give a verdict (vanished anchor, unparsable source)"""


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.ns = {}
        self.state = 0
        self.all = None

    @property
    def package(self):
        return self.name if self.is_pkg else self.name.rpartition(".")[0]


class Program:
    def __init__(self, root, pkg="direpack", skip=("test",)):
        self.root, self.pkg = root, pkg
        base = os.path.join(root, "src", pkg)
        if not os.path.isdir(base):
            raise AnalysisError("package directory %s not found" % base)
        self.modules = {}
        self.nfunc = 0
        self.nstmt = 0
        self.ncall = 0
        for dp, dn, fn in os.walk(base):
            rel = os.path.relpath(dp, base)
            parts = [] if rel == "." else rel.split(os.sep)
            if parts and parts[0] in skip:
                continue
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                with open(path, "rb") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisError("cannot parse %s: %s" % (path, e))
                nm = [pkg] + parts + ([] if f == "__init__.py" else [f[:-3]])
                m = Module(".".join(nm), os.path.relpath(path, root), tree, f == "__init__.py")
                self.modules[m.name] = m
                for n in ast.walk(tree):
                    if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                        self.nfunc += 1
                    if isinstance(n, ast.stmt):
                        self.nstmt += 1
                    if isinstance(n, ast.Call):
                        self.ncall += 1


def names_loaded(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            out.update(n.names)
    return frozenset(out)


def liveness(body, after=frozenset(), table=None):
    """coarse liveness: names mentioned in what may run after each statement"""
    if table is None:
        table = {}
    acc = after
    for s in reversed(body):
        table[id(s)] = acc
        if isinstance(s, (ast.For, ast.While)):
            inner = acc | names_loaded(s)
            liveness(s.body, inner, table)
            liveness(s.orelse, acc, table)
        elif isinstance(s, ast.If):
            liveness(s.body, acc, table)
            liveness(s.orelse, acc, table)
        elif isinstance(s, ast.With):
            liveness(s.body, acc, table)
        elif isinstance(s, ast.Try):
            inner = acc
            for h in s.handlers:
                inner = inner | names_loaded(h)
            for x in s.orelse + s.finalbody:
                inner = inner | names_loaded(x)
            liveness(s.body, inner, table)
            fin = acc
            for x in s.finalbody:
                fin = fin | names_loaded(x)
            for h in s.handlers:
                liveness(h.body, fin, table)
            liveness(s.orelse, fin, table)
            liveness(s.finalbody, acc, table)
        acc = acc | names_loaded(s)
    return table

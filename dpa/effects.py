"""Process-level effects: which library calls and stores change more than their
arguments.  Every call and store of the package is resolved through imports
(aliases, star imports, local imports, simple local aliases) to a dotted name."""
import ast

PREFIX = {
    "file": ("shutil.", "tempfile.", "shelve.", "sqlite3.", "dbm.", "glob.", "joblib.dump", "joblib.load", "joblib.Memory", "pickle.dump", "pickle.load", "json.dump", "json.load", "csv.",
             "numpy.save", "numpy.load", "numpy.genfromtxt", "numpy.fromfile", "numpy.memmap", "numpy.lib.npyio.", "pandas.read_", "pandas.to_pickle", "pandas.ExcelWriter", "pandas.HDFStore", "fileinput.",
             "logging.FileHandler", "logging.handlers.", "logging.basicConfig", "scipy.io.", "matplotlib.pyplot.savefig", "matplotlib.pyplot.imsave", "zipfile.", "gzip.", "bz2.", "tarfile.", "os.path.getmtime"),
    "network": ("socket.", "urllib.request.", "requests.", "http.", "ftplib.", "smtplib.", "ssl.", "webbrowser.", "xmlrpc."),
    "process": ("subprocess.", "multiprocessing.", "threading.", "_thread.", "concurrent.", "asyncio.", "signal.", "atexit.", "joblib.Parallel", "sched.", "pty.", "ctypes.CDLL"),
    "environment": ("locale.setlocale", "resource.setrlimit", "sys.setrecursionlimit", "sys.settrace", "sys.setprofile", "sys.setswitchinterval", "gc.disable", "gc.enable", "gc.set_threshold", "gc.freeze",
                    "time.tzset", "faulthandler.", "readline."),
    "random state": ("numpy.random.seed", "numpy.random.set_state", "random.seed", "random.setstate"),
    "numerical settings": ("numpy.seterr", "numpy.seterrcall", "numpy.setbufsize", "numpy.set_printoptions", "numpy.set_string_function", "scipy.special.seterr", "pandas.set_option", "pandas.reset_option",
                           "pandas.options.", "pandas.set_eng_float_format", "sklearn.set_config", "mkl.", "numba.set_num_threads", "numba.config", "decimal.setcontext", "torch.manual_seed", "threadpoolctl."),
    "warning filters": ("warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings", "logging.disable", "logging.captureWarnings"),
    "plot settings": ("matplotlib.rc", "matplotlib.use", "matplotlib.pyplot.rc", "matplotlib.pyplot.rcdefaults", "matplotlib.pyplot.switch_backend", "matplotlib.pyplot.ion", "matplotlib.pyplot.ioff", "matplotlib.style.",
                      "matplotlib.pyplot.style.", "matplotlib.pyplot.xkcd", "matplotlib.rcdefaults", "matplotlib.pyplot.set_cmap", "seaborn.set"),
}
# exact names (with everything in os that is not a pure query)
OS_PURE = {"os.path", "os.getcwd", "os.getpid", "os.cpu_count", "os.sep", "os.linesep", "os.name", "os.fspath", "os.environ", "os.getenv", "os.get_terminal_size", "os.urandom", "os.getlogin", "os.uname", "os.times", "os.sched_getaffinity", "os.environ.get"}
# context managers that put the setting back
RESTORING = ("numpy.errstate", "warnings.catch_warnings", "matplotlib.pyplot.rc_context", "matplotlib.rc_context", "pandas.option_context", "numpy.printoptions", "sklearn.config_context", "scipy.special.errstate",
             "matplotlib.pyplot.style.context", "matplotlib.style.context", "contextlib.redirect_stdout", "decimal.localcontext", "threadpoolctl.threadpool_limits", "matplotlib.pyplot.ioff", "matplotlib.pyplot.ion", "matplotlib.pyplot.xkcd")
METHODS = {"savefig": "file", "to_csv": "file", "to_pickle": "file", "to_excel": "file", "to_parquet": "file", "to_feather": "file", "to_hdf": "file", "to_sql": "file", "to_stata": "file", "tofile": "file",
           "write_text": "file", "write_bytes": "file", "read_text": "file", "read_bytes": "file", "unlink": "file", "rmdir": "file", "mkdir": "file", "touch": "file"}
DRAWS = ("numpy.random.", "random.")
NODRAW = {"numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.Generator", "numpy.random.get_state", "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.MT19937", "random.Random", "random.getstate"}


def effect_of(path):
    """kind of effect of calling the external function, or None"""
    if path in RESTORING:
        return None
    if path in ("builtins.open", "io.open", "codecs.open", "open", "os.open"):
        return "file"
    if path.startswith("os."):
        if path in OS_PURE or path.startswith("os.path."):
            return None
        tail = path[3:]
        if tail.startswith(("system", "popen", "fork", "exec", "spawn", "kill", "posix_spawn", "abort", "_exit", "nice")):
            return "process"
        if tail in ("chdir", "fchdir", "putenv", "unsetenv", "umask", "chroot", "setuid", "setgid") or tail.startswith("environ."):
            return None if tail in ("environ.get", "environ.keys", "environ.items", "environ.copy", "environ.values") else "environment"
        return "file"
    if path.startswith("sys.path.") or path.startswith("sys.modules."):
        return None if path.endswith((".copy", ".index", ".get", ".count")) else "environment"
    if path.startswith(("matplotlib.rcParams.", "matplotlib.pyplot.rcParams.")):
        return None if path.endswith((".get", ".copy", ".items", ".keys")) else "plot settings"
    for kind, pre in PREFIX.items():
        for p in pre:
            if path == p or path.startswith(p) and (p.endswith((".", "_")) or path[len(p):len(p) + 1] in (".", "") or p in ("numpy.save", "numpy.load", "joblib.dump", "joblib.load", "json.dump", "json.load", "pickle.dump", "pickle.load", "matplotlib.rc", "seaborn.set")):
                if path in ("json.dumps", "json.loads", "pickle.dumps", "pickle.loads", "matplotlib.rcParams"):
                    return None
                return kind
    return None


def is_draw(path):
    return path.startswith(DRAWS) and path not in NODRAW and effect_of(path) is None and not path.startswith("numpy.random.RandomState.") and path.count(".") <= 2


# ------------------------------------------------------------------ names
def bindings(prog):
    """module name -> {name: dotted path}; package modules are followed"""
    env = {}

    def bind_import(m, s, out):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split(".")[0]] = a.name.split(".")[0]
        else:
            base = s.module or ""
            if s.level:
                pk = m.package.split(".")
                pk = pk[: len(pk) - (s.level - 1)] if s.level > 1 else pk
                base = ".".join(pk + ([s.module] if s.module else []))
            for a in s.names:
                if a.name == "*":
                    if base in prog.modules:
                        for k, v in mod_env(base).items():
                            if not k.startswith("_"):
                                out[k] = v
                    continue
                tgt = base + "." + a.name
                if base in prog.modules and tgt not in prog.modules:
                    tgt = mod_env(base).get(a.name, tgt)
                out[a.asname or a.name] = tgt

    def mod_env(name):
        if name in env:
            return env[name]
        e = env[name] = {}
        m = prog.modules[name]
        for s in m.tree.body:
            for n in ast.walk(s) if isinstance(s, (ast.Try, ast.If, ast.With)) else [s]:
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    bind_import(m, n, e)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                e[s.name] = name + "." + s.name
        return e
    for n in prog.modules:
        mod_env(n)
    return env, bind_import


def resolve(e, env):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
        b = resolve(e.args[0], env)
        return None if b is None else ".".join([b, str(e.args[1].value)] + parts[::-1])
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "__import__" and e.args and isinstance(e.args[0], ast.Constant):
        return ".".join([str(e.args[0].value)] + parts[::-1])
    if isinstance(e, ast.Call):
        b = resolve(e.func, env)
        if b == "importlib.import_module" and e.args and isinstance(e.args[0], ast.Constant):
            return ".".join([str(e.args[0].value)] + parts[::-1])
        return None
    if not isinstance(e, ast.Name):
        return None
    b = env.get(e.id)
    if b is None:
        return None
    return ".".join([b] + parts[::-1])


CANON = (("np.", "numpy."), ("matplotlib.pylab.", "matplotlib.pyplot."), ("pylab.", "matplotlib.pyplot."), ("numpy.random.mtrand.", "numpy.random."), ("posix.", "os."), ("_io.", "io."))


def canon(p):
    for a, b in CANON:
        if p.startswith(a):
            return b + p[len(a):]
    return p


BUILTIN_EFFECT = {"open": "builtins.open", "input": None}


class Walk(ast.NodeVisitor):
    def __init__(self, prog, mod, env, bind_import, found):
        self.prog, self.mod, self.bind = prog, mod, bind_import
        self.scopes = [dict(env)]
        self.fn = ["module level"]
        self.guard = []
        self.found = found
        self.calls = self.stores = self.resolved = 0

    @property
    def env(self):
        return self.scopes[-1]

    def hit(self, node, kind, what):
        self.found.append((kind, "%s (%s) %s" % (self.mod.path, self.fn[-1], what), what, "%s:%d" % (self.mod.path, node.lineno)))

    def visit_Import(self, n):
        self.bind(self.mod, n, self.env)

    visit_ImportFrom = visit_Import

    def _function(self, n, name):
        for d in getattr(n, "decorator_list", []):
            self.visit(d)
        e = dict(self.env)
        a = n.args
        for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
            self.visit(d)
        local = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        glob, assigned = set(), {}
        body = n.body if isinstance(n.body, list) else [n.body]
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Global):
                    glob.update(x.names)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    assigned[x.id] = assigned.get(x.id, 0) + 1
        for x in local | {k for k in assigned if k not in glob}:
            e.pop(x, None)
        self.scopes.append(e)
        self.fn.append(name)
        g, self.guard = self.guard, []
        # simple aliases of external functions
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    self.bind(self.mod, x, e)
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and assigned.get(x.targets[0].id) == 1:
                    p = resolve(x.value, e)
                    if p is not None:
                        e[x.targets[0].id] = p
        self.restored = set()
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Try):
                    for f in x.finalbody:
                        for c in ast.walk(f):
                            if isinstance(c, ast.Call):
                                p = resolve(c.func, e)
                                if p:
                                    self.restored.add(canon(p))
        for s in body:
            self.visit(s)
        self.restored = set()
        self.guard = g
        self.fn.pop()
        self.scopes.pop()

    restored = frozenset()

    def visit_FunctionDef(self, n):
        self._function(n, n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        self._function(n, self.fn[-1])

    def visit_With(self, n):
        g = []
        for i in n.items:
            c = i.context_expr
            p = resolve(c.func, self.env) if isinstance(c, ast.Call) else None
            p = canon(p) if p else None
            if p in RESTORING:
                g.append(p)
                for a in c.args + [k.value for k in c.keywords]:
                    self.visit(a)
            else:
                self.visit(c)
        self.guard = self.guard + g
        for s in n.body:
            self.visit(s)
        self.guard = self.guard[: len(self.guard) - len(g)]

    def allowed(self, kind, path):
        if path in self.restored:
            return True
        for g in self.guard:
            if kind == "warning filters" and g == "warnings.catch_warnings" or kind == "plot settings" and ("rc_context" in g or "style" in g) or kind == "numerical settings" and ("errstate" in g or "option" in g or "config_context" in g):
                return True
        return False

    safe = None

    def visit_Call(self, n):
        self.calls += 1
        p = resolve(n.func, self.env)
        if p is None and isinstance(n.func, ast.Name) and n.func.id in BUILTIN_EFFECT and n.func.id not in self.env:
            p = BUILTIN_EFFECT[n.func.id]
        if p is not None:
            p = canon(p)
            self.resolved += 1
            if not p.startswith(self.prog.pkg + "."):
                k = effect_of(p)
                if k and not self.allowed(k, p):
                    self.hit(n, k, p)
                elif k and self.safe is not None:
                    self.safe.add((self.mod.path, n.lineno))
        if isinstance(n.func, ast.Attribute) and (p is None or not p.startswith(self.prog.pkg + ".")) and n.func.attr in METHODS and not (p and effect_of(p)):
            own = isinstance(n.func.value, ast.Name) and n.func.value.id == "self"
            if not own:
                self.hit(n, METHODS[n.func.attr], "." + n.func.attr)
        self.generic_visit(n)

    def _store(self, t, node):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self._store(x, node)
            return
        if isinstance(t, ast.Starred):
            return self._store(t.value, node)
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            self.stores += 1
            b = t
            while isinstance(b, ast.Subscript):
                b = b.value
            p = resolve(b, self.env)
            if p is not None:
                p = canon(p)
                if not p.startswith(self.prog.pkg) and not self.allowed("plot settings" if "rcParams" in p else "numerical settings" if p.startswith("pandas.options") else "", p):
                    self.hit(node, "module state", "store into " + p)

    def visit_Assign(self, n):
        for t in n.targets:
            self._store(t, n)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self._store(n.target, n)
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self._store(n.target, n)
        self.generic_visit(n)

    def visit_Delete(self, n):
        for t in n.targets:
            self._store(t, n)
        self.generic_visit(n)


def scan(prog, name):
    """all effects in one module -> (findings, calls, resolved, stores)"""
    env, bi = bindings(prog)
    m = prog.modules[name]
    found = []
    w = Walk(prog, m, env[name], bi, found)
    w.visit(m.tree)
    return found, w.calls, w.resolved, w.stores


_safe = {}


def guarded(prog):
    """(file, line) of the calls that change a setting inside a block that restores it"""
    if id(prog) not in _safe:
        s = set()
        env, bi = bindings(prog)
        for name, m in prog.modules.items():
            w = Walk(prog, m, env[name], bi, [])
            w.safe = s
            w.visit(m.tree)
        _safe[id(prog)] = s
    return _safe[id(prog)]

"""The public estimators and functions, their documented options and the forms of
data they accept.  A Case is one way of calling the library on abstract data."""
import itertools
from fractions import Fraction
from .poly import Poly, ONE
from .values import *
from .scen import Dims, arr
from . import probe

PT = ("pt", frozenset([0]))
UX = (("X", Fraction(1)),)
UY = (("y", Fraction(1)),)


def pairwise(opts, skip=lambda d: False):
    """covering array for all pairs of option values (greedy, deterministic)"""
    keys = list(opts)
    full = [dict(zip(keys, v)) for v in itertools.product(*opts.values())]
    full = [d for d in full if not skip(d)]
    if len(keys) == 1:
        return full
    need = set()
    for d in full:
        for a, b in itertools.combinations(keys, 2):
            need.add((a, d[a], b, d[b]))
    out = []
    cov = [(d, [(a, d[a], b, d[b]) for a, b in itertools.combinations(keys, 2)]) for d in full]
    while need:
        best, bd = 0, None
        for d, ps in cov:
            c = sum(1 for q in ps if q in need)
            if c > best:
                best, bd = c, (d, ps)
        out.append(bd[0])
        need.difference_update(bd[1])
    return out


def product(opts, skip=lambda d: False):
    keys = list(opts)
    full = [dict(zip(keys, v)) for v in itertools.product(*opts.values())]
    return [d for d in full if not skip(d)]


def each(opts, skip=lambda d: False):
    """the first value of every option, then every other value on its own"""
    base = {k: v[0] for k, v in opts.items()}
    out = [base]
    for k, vs in opts.items():
        for v in vs[1:]:
            d = dict(base)
            d[k] = v
            if not skip(d):
                out.append(d)
    return out


class Case:
    def __init__(self, est, opts, dv="tall", fit=None, uses=(), two=True, ctor=None, xc="nd", yc="col", key=None, extra=None, kw=""):
        self.est, self.opts, self.dv, self.xc, self.yc = est, dict(opts), dv, xc, yc
        self.uses = list(uses)
        self.two = two
        self.ctor = ctor or "%s(%s)" % (est, ", ".join("%s=%s" % kv for kv in self.opts.items()))
        self.fit = fit or "e.fit(X, y)"
        self.D = DV[dv]
        self.extra = extra or {}
        self.key = key or "%s|%s|%s|x=%s,y=%s" % (self.ctor, self.fit, dv, xc, yc)

    def ns(self, R, focus="train"):
        d = self.D
        new = focus == "new"
        ns = {k: v for k, v in R.prog.modules["direpack"].ns.items() if not k.startswith("__")}
        ns["np"] = Ext("numpy")
        ns.update(probe.NS)
        ns["h"] = Num("int", poly=d.h, f=F(DIMLESS, term=T("dim", d.h)))
        for k in "nphm":
            ns["__" + k] = Num("int", poly=getattr(d, k))
        tr = NOROWS if new else PT
        ns["X"] = frame("X", (d.n, d.p), self.xc, rows=tr)
        ns["y"] = resp("y", d.n, self.yc, rows=tr)
        tr = PT if new else NOROWS
        ns["Xn"] = frame("Xn", (d.m, d.p), self.xc, unit=UX, rows=tr)
        ns["yn"] = resp("yn", d.m, self.yc, unit=UY, rows=tr)
        for k, v in self.extra.items():
            if isinstance(v, Names):
                continue
            ns[k] = v(R, d) if callable(v) else v
        return ns

    def setup(self, I, st):
        for k, v in self.extra.items():
            if isinstance(v, Names):
                r = I.new_list([Const(x) for x in v.items], None, None) if v.items else I.new_list(None, Str(), getattr(self.D, v.dim))
                st.mut(r.oid).tag = "caller:" + k
                st.frames[-1].loc[k] = r

    def run(self, R, text, hooks=None, casesyms=None, focus="train"):
        return R.run(text, self.ns(R, focus), self.case_syms() if casesyms is None else casesyms, hooks, self.setup)

    def script(self, uses=True, pre=""):
        t = pre + "e = %s\nr = %s\n" % (self.ctor, self.fit)
        if uses:
            for nm, call in self.uses:
                t += "%s = %s\n" % (nm, call)
        return t

    def case_syms(self):
        return self.D.case


def frame(name, shape, cont, **k):
    if cont == "frame":
        return arr(name, shape, "frame", lab=name, **k)
    return arr(name, shape, cont, **k)


def resp(name, n, yc, **k):
    if yc == "col":
        return arr(name, (n, ONE), **k)
    if yc == "1d":
        return arr(name, (n,), **k)
    if yc == "series":
        return arr(name, (n,), "series", lab=name, **k)
    if yc == "frame":
        return arr(name, (n, ONE), "frame", lab=name, **k)
    raise ValueError(yc)


DV = {
    "tall": Dims(),
    "h1": Dims(h=1),
    "p1": Dims(h=1, p=1),
    "p2": Dims(h=1, p=2),
    "wide": Dims(n="wide"),
    "m1": Dims(m=1),
    "square": Dims(h=2, p="g"),
    "cols": Dims(h=1, n=Poly.const(4) + Poly.sym("b")),
}


Q = repr
TR, FA, NO = "True", "False", "None"


def q(*xs):
    return [Q(x) for x in xs]


# --------------------------------------------------------------------------
# sprm, snipls, rm
SPRM_USE = [("yp", "e.predict(Xn)"), ("tn", "e.transform(Xn)"), ("wn", "e.weightnewx(Xn)"), ("vs", "e.valscore(Xn, yn, 'normal')"), ("vw", "e.valscore(X, y, 'weighted')")]
SPRM_OPT = {
    "fun": q("Hampel", "Huber", "Fair"),
    "centre": q("median", "mean", "l1median", "kstepLTS"),
    "scale": q("mad", "std", "scaleTau2", "None"),
    "start_cutoff_mode": q("specific", "other"),
    "start_X_init": q("pcapp", "none"),
}
SPRM_COMMON = {"n_components": "h", "verbose": FA}


def sprm_cases(tier):
    out = []

    def add(o, dv="tall", **k):
        uses = k.pop("uses", SPRM_USE)
        opts = dict(SPRM_COMMON)
        opts.update(o)
        out.append(Case("sprm", opts, dv, uses=uses, **k))
    for o in (pairwise if tier == "quick" else product)(SPRM_OPT):
        add(o)
    b = {k: v[0] for k, v in SPRM_OPT.items()}
    for yc in ("1d", "series", "frame"):
        add(b, yc=yc)
    add(b, xc="frame", yc="series")
    add({"columns": TR}, xc="frame", yc="series")
    add({"columns": "names"}, extra={"names": names})
    add({"copy": FA})
    add({"copy": FA}, xc="frame", yc="series")
    add({"eta": "0.0"})
    for dv in ("h1", "wide", "m1"):
        add(b, dv)
    add(b, "m1", xc="frame", yc="series")
    add({"fun": "'Huber'", "centre": "'mean'", "scale": "'None'"}, "h1")
    add({"fun": "'Fair'", "start_X_init": "'none'"}, "p2")
    if tier != "quick":
        for dv in ("h1", "p2", "wide", "m1"):
            for o in pairwise(SPRM_OPT):
                add(o, dv)
        for yc in ("1d", "series", "frame"):
            for o in pairwise(SPRM_OPT):
                add(o, xc="frame", yc=yc)
        for o in pairwise(SPRM_OPT):
            add(dict(o, copy=FA))
    return out


def vector_cases(tier):
    """a single new case given as a vector or series, used by each method"""
    out = []
    for c in newx_cases("quick"):
        if c.est in ("ppdire", "sudire"):
            continue  # these document two-dimensional data only
        for cont in ("nd", "series"):
            if cont == "series" and c.est not in ("sprm", "snipls", "VersatileScaler"):
                continue
            us = [("v%d" % i, "e.%s(xv)" % m) for i, m in enumerate(c.methods) if m not in ("valscore", "weightnewx")]
            o = Case(c.est, c.opts, c.dv, fit=c.fit, uses=us, ctor=c.ctor, key="vector %s|%s" % (cont, c.key),
                     extra={"xv": lambda R, d, cont=cont: Arr((d.p,), cont, "f", frozenset([("in", "xv")]), None, f=F(UX, NOROWS, frozenset(["xv"]), T("in", "xv")))})
            out.append(o)
    return out


class Names:
    """marker: a list of names owned by the caller, of symbolic length or given"""

    def __init__(self, dim="p", items=None):
        self.dim, self.items = dim, items


names = Names()


SNIPLS_OPT = {
    "centre": q("mean", "median", "l1median", "kstepLTS", "None"),
    "scale": q("None", "std", "mad", "scaleTau2"),
    "eta": ["0.5", "0.0"],
    "verbose": [FA, TR],
}
SNIPLS_USE = [("yp", "e.predict(Xn)"), ("tn", "e.transform(Xn)")]


def snipls_cases(tier):
    out = []

    def add(o, dv="tall", **k):
        opts = {"n_components": "h"}
        opts.update(o)
        out.append(Case("snipls", opts, dv, uses=SNIPLS_USE, **k))
    for o in (pairwise if tier == "quick" else product)(SNIPLS_OPT):
        add(o)
    for yc in ("1d", "series", "frame"):
        add({"verbose": FA}, yc=yc)
        add({"verbose": FA}, xc="frame", yc=yc)
    add({"columns": TR, "verbose": TR}, xc="frame", yc="series")
    add({"columns": "names", "verbose": TR}, extra={"names": names})
    add({"copy": FA, "verbose": FA})
    add({"copy": FA, "verbose": FA}, xc="frame", yc="series")
    add({"verbose": FA}, "m1", xc="frame", yc="series")
    for dv in ("h1", "p1", "p2", "wide", "m1"):
        for o in ([{"verbose": FA}] if tier == "quick" else pairwise(SNIPLS_OPT)):
            add(o, dv)
    return out


RM_OPT = {
    "fun": q("Hampel", "Huber", "Fair"),
    "centre": q("median", "mean", "l1median"),
    "scale": q("mad", "std", "None"),
    "start_cutoff_mode": q("specific", "other"),
    "verbose": [FA, TR],
}


def rm_cases(tier):
    out = []

    def add(o, dv="tall", **k):
        out.append(Case("rm", o, dv, uses=[("yp", "e.predict(Xn)")], **k))
    for o in (pairwise if tier == "quick" else product)(RM_OPT):
        add(o)
    for yc in ("1d", "series", "frame"):
        add({"verbose": FA}, yc=yc)
    add({"verbose": FA}, xc="frame", yc="series")
    add({"verbose": FA}, xc="frame", yc="frame")
    add({"copy": FA, "verbose": FA})
    add({"copy": FA, "verbose": FA}, xc="frame", yc="series")
    for dv in ("p1", "p2", "m1"):
        add({"verbose": FA}, dv)
        add({"verbose": FA}, dv, xc="frame", yc="series")
    return out


# --------------------------------------------------------------------------
# ppdire
ONEB = q("var", "std", "skew", "kurt", "mom")
TWOB = q("cov", "corr", "com", "cos", "cok", "continuum", "M3", "mdd", "mdc")
PP_OPT = {
    "center": q("mean", "median"),
    "center_data": [TR, FA],
    "scale_data": [TR, FA],
    "whiten_data": [FA, TR],
    "square_pi": [FA, TR],
    "return_scaling_object": [TR, FA],
    "trimming": ["0", "0.1"],
}
PP_USE2 = [("yp", "e.predict(Xn)"), ("tn", "e.transform(Xn)")]
PP_USE1 = [("tn", "e.transform(Xn)")]
GRIDO = "{'ndir': 100, 'maxiter': 20}"


def pp_case(mode, o, dv="tall", opt="'grid'", two=None, fitkw="", est="'arithmetic'", **k):
    two = mode in TWOB if two is None else two
    opts = {"projection_index": "dicomo", "pi_arguments": "caller({'mode': %s, 'est': %s}, 'pi_arguments')" % (mode, est) if est else "caller({'mode': %s}, 'pi_arguments')" % mode,
            "n_components": "h", "optimizer": opt, "verbose": FA}
    if opt == "'grid'":
        opts["optimizer_options"] = "caller(%s, 'optimizer_options')" % GRIDO
    else:
        opts["optimizer_options"] = "caller({'maxiter': 500}, 'optimizer_options')"
    opts.update(o)
    fit = "e.fit(X, y%s)" % fitkw if two else "e.fit(X%s)" % fitkw
    return Case("ppdire", opts, dv, fit=fit, uses=PP_USE2 if two else PP_USE1, two=two, **k)


def ppdire_cases(tier):
    out = []
    for m in ONEB + TWOB:
        if m in q("mdd", "mdc"):
            out.append(pp_case(m, {}, est="'distance'"))
        else:
            out.append(pp_case(m, {}))
        out.append(pp_case(m, {}, opt="'SLSQP'", est="'distance'" if m in q("mdd", "mdc") else "'arithmetic'"))
    for i, o in enumerate((pairwise if tier == "quick" else product)(PP_OPT)):
        out.append(pp_case("'var'", o, opt="'SLSQP'" if i % 2 and tier == "quick" else "'grid'"))
        out.append(pp_case("'cov'", o, opt="'grid'" if i % 2 and tier == "quick" else "'SLSQP'"))
    for ro in q("OLS", "robust", "quantile"):
        for c in q("mean", "median"):
            for sd in (TR, FA):
                out.append(pp_case("'cov'", {"regopt": ro, "center": c, "scale_data": sd}, opt="'SLSQP'"))
    out.append(pp_case("'var'", {}, opt="'SLSQP'", two=True))
    out.append(pp_case("'var'", {}, opt="'differential_evolution'"))
    out.append(pp_case("'cov'", {}, opt="'SLSQP'", fitkw=", mixing=True"))
    out.append(pp_case("'var'", {}, opt="'SLSQP'", fitkw=", mixing=True"))
    out.append(pp_case("'var'", {"n_components": "1"}, opt="'SLSQP'", fitkw=", h=h"))
    out.append(pp_case("'cov'", {"alpha": "2.0"}, opt="'SLSQP'"))
    out.append(pp_case("'cov'", {"copy": FA}, opt="'SLSQP'"))
    out.append(pp_case("'cov'", {"copy": FA}, opt="'grid'"))
    out.append(pp_case("'var'", {"copy": FA, "center_data": FA, "scale_data": FA}, opt="'SLSQP'"))
    out.append(pp_case("'cov'", {"copy": FA, "center_data": FA, "scale_data": FA}, opt="'SLSQP'", xc="frame", yc="series"))
    for yc in ("1d", "series", "frame"):
        for xc in ("nd", "frame"):
            out.append(pp_case("'cov'", {}, opt="'SLSQP'", xc=xc, yc=yc))
    out.append(pp_case("'cov'", {}, opt="'grid'", xc="frame", yc="series"))
    out.append(pp_case("'var'", {}, opt="'grid'", xc="frame"))
    out.append(pp_case("'cov'", {}, "m1", opt="'SLSQP'", xc="frame", yc="series"))
    for dv in ("h1", "p1", "p2", "m1"):
        out.append(pp_case("'var'", {}, dv))
        out.append(pp_case("'cov'", {}, dv))
        out.append(pp_case("'cov'", {}, dv, opt="'SLSQP'"))
    for co in (FA, TR):
        for c in q("mean", "median"):
            out.append(pp_case("'var'", {"compression": co, "center": c}, "wide", opt="'SLSQP'"))
            out.append(pp_case("'cov'", {"compression": co, "center": c}, "wide", opt="'SLSQP'"))
    out.append(pp_case("'cov'", {"compression": TR}, "wide"))
    # capi as projection index
    for deg in ("2", "3") + (("4",) if tier != "quick" else ()):
        o = {"projection_index": "capi", "pi_arguments": "caller({'max_degree': %s, 'projection_index': dicomo}, 'pi_arguments')" % deg}
        out.append(pp_case("'cov'", o, opt="'SLSQP'", two=True))
    return out


# --------------------------------------------------------------------------
# sudire
SUD_M = q("sir", "save", "dr", "phd", "iht", "dcov-sdr", "mdd-sdr")
SUD_OPT = {
    "center": q("mean", "median"),
    "center_data": [TR, FA],
    "scale_data": [TR, FA],
    "whiten_data": [FA, TR],
    "return_scaling_object": [TR, FA],
}
SUD_USE = [("tn", "e.transform(Xn)"), ("yp", "e.predict(Xn)")]


def sud_case(m, o, dv="tall", **k):
    opts = {"sudiremeth": m, "n_components": "h", "verbose": FA}
    if m in q("dcov-sdr", "mdd-sdr"):
        opts["optimizer_options"] = "caller({'max_iter': 100}, 'optimizer_options')"
    opts.update(o)
    return Case("sudire", opts, dv, uses=SUD_USE, **k)


def sudire_cases(tier):
    out = []
    for m in SUD_M:
        for o in (pairwise if tier == "quick" else product)(SUD_OPT):
            out.append(sud_case(m, o))
        for dv in ("h1", "p2", "m1"):
            out.append(sud_case(m, {}, dv))
        for xc, yc in (("nd", "1d"), ("nd", "series"), ("frame", "series"), ("frame", "frame"), ("frame", "col")):
            out.append(sud_case(m, {}, xc=xc, yc=yc))
            out.append(sud_case(m, {"center_data": FA, "scale_data": FA}, xc=xc, yc=yc))
        out.append(sud_case(m, {}, "m1", xc="frame", yc="series"))
        out.append(sud_case(m, {"copy": FA}))
        out.append(sud_case(m, {"copy": FA, "center_data": FA, "scale_data": FA}, xc="frame", yc="series"))
        out.append(sud_case(m, {"n_slices": "4"}))
        out.append(sud_case(m, {"trimming": "0.1"}))
        c = sud_case(m, {"fit_ols": FA})
        c.uses = c.uses[:1]
        out.append(c)
    return out


# --------------------------------------------------------------------------
# dicomo, capi
DI1 = q("mom", "var", "std", "skew", "kurt")
DI2 = q("com", "cov", "cok", "cos", "corr", "continuum", "M3")
DID = q("mdd", "mdc")


def di_case(mode, o=None, kw="", est="'arithmetic'", xc="1d", yc="1d", dv="tall"):
    two = mode not in DI1
    opts = {"est": est, "mode": mode}
    opts.update(o or {})
    fit = "e.fit(x, y=y%s)" % kw if two else "e.fit(x%s)" % kw
    return Case("dicomo", opts, dv, fit=fit, two=two, yc=yc, extra={"x": lambda R, d, xc=xc: resp("x", d.n, xc)}, key="dicomo(est=%s, mode=%s, %s)|%s|x=%s,y=%s" % (est, mode, o or {}, fit, xc, yc))


def dicomo_cases(tier):
    out = []
    kws = ["", ", trimming=0.1", ", biascorr=True", ", trimming=0.1, biascorr=True"]
    for m in DI1 + DI2:
        for c in q("mean", "median"):
            for kw in kws:
                for xc in ("1d", "col"):
                    for o in ([1, 2] if m in q("cos") else [1, 2, 3] if m in q("cok") else [None]):
                        out.append(di_case(m, {"center": c}, kw + (", option=%d" % o if o else ""), xc=xc, yc=xc))
    for m in q("mom", "com"):
        for order in (2, 3, 4):
            out.append(di_case(m, None, ", order=%d" % order))
    for m in DID + q("var", "std", "cov", "corr", "continuum"):
        for kw in kws:
            for xc in ("1d", "col"):
                out.append(di_case(m, None, kw, est="'distance'", xc=xc, yc=xc))
    for cm in q("fast", "naive"):
        for m in q("mdd", "mdc", "cov", "corr", "var"):
            out.append(di_case(m, None, ", calcmode=%s" % cm, est="'distance'", xc="col", yc="col"))
    for m in q("cov", "var", "cos", "cok", "corr"):
        for yc in ("series", "frame"):
            out.append(di_case(m, None, xc=yc, yc=yc))
    return out


def capi_cases(tier):
    out = []
    for deg in ("2", "3", "4"):
        for ce in (FA, TR):
            for sc in (TR, FA):
                for op in ("'all'", "1", "[1]"):
                    out.append(Case("capi", {"max_degree": deg, "centring": ce, "scaling": sc, "options": op}, fit="e.fit(x, y)", extra={"x": lambda R, d: resp("x", d.n, "col")},
                                    key="capi(max_degree=%s, centring=%s, scaling=%s, options=%s)" % (deg, ce, sc, op)))
    return out


# --------------------------------------------------------------------------
# preprocessing
VS_OPT = {
    "center": q("mean", "median", "l1median", "kstepLTS", "None"),
    "scale": q("std", "mad", "scaleTau2", "None"),
    "trimming": ["0", "0.1"],
}
VS_USE = [("tn", "e.transform(Xn)"), ("pn", "e.predict(Xn)"), ("ft", "e.fit_transform(X)"), ("iv", "e.inverse_transform(tn)")]


def scaler_cases(tier):
    out = []
    for o in product(VS_OPT):
        out.append(Case("VersatileScaler", o, fit="e.fit(X)", uses=VS_USE))
        out.append(Case("VersatileScaler", o, fit="e.fit(X)", uses=VS_USE, xc="frame"))
        for dv in ("p1", "m1", "wide"):
            out.append(Case("VersatileScaler", o, dv, fit="e.fit(X)", uses=VS_USE))
        out.append(Case("VersatileScaler", o, "m1", fit="e.fit(X)", uses=VS_USE, xc="frame"))
    for xc in ("nd", "frame"):
        for dv in ("tall", "m1", "p1"):
            out.append(Case("Wrapper", {}, dv, fit="e.fit(X)", uses=[("tn", "e.transform(Xn)"), ("pn", "e.predict(Xn)"), ("ft", "e.fit_transform(X)")], xc=xc))
    for f in q("ss", "ball", "shell", "quad", "winsor", "linear_redescending"):
        for c in q("mean", "median", "l1median", "kstepLTS", "None"):
            for xc in ("nd", "frame"):
                out.append(Case("GenSpatialSignPreProcessor", {"center": c, "fun": f}, fit="e.fit(X)", uses=[], xc=xc))
    return out


def fn_case(name, call, dv="tall", xc="nd", yc="col", extra=None, ns_path=None):
    return Case(name, {}, dv, ctor="None", fit=call, xc=xc, yc=yc, extra=extra, key="%s|%s|x=%s,y=%s" % (call, dv, xc, yc))


def function_cases(tier):
    out = []
    for f in q("ss", "ball", "shell", "quad", "winsor", "linear_redescending"):
        for xc in ("nd", "frame"):
            out.append(fn_case("gen_ss_pp", "gen_ss_pp(X, fun=%s)" % f, xc=xc))
            out.append(fn_case("gen_ss_covmat", "gen_ss_covmat(X, fun=%s)" % f, xc=xc))
    for c in q("mean", "median", "l1median", "kstepLTS", "None"):
        for s in q("std", "mad", "scaleTau2", "None"):
            out.append(fn_case("versatile_scale", "versatile_scale(X, center=%s, scale=%s)" % (c, s)))
    for l in ("mean_squared_error", "mean_absolute_error"):
        for f in ("Hampel", "Huber", "Fair"):
            for yc in ("col", "1d", "series"):
                out.append(fn_case("robust_loss", "robust_loss(y, y2, lfun=%s, fun=%s)" % (l, f), yc=yc,
                                   extra={"y2": lambda R, d, yc=yc: resp("y2", d.n, yc, unit=UY), l: Ext("sklearn.metrics." + l), f: lambda R, d, f=f: R.lookup("direpack.sprm._m_support_functions." + f)}))
    out.append(fn_case("estimate_structural_dim", "estimate_structural_dim('sir', X, y, 5, verbose=False)"))
    return out


# --------------------------------------------------------------------------
# options: one case per constructor option and changed value
CTORS = {"sprm": "", "snipls": "", "rm": "", "ppdire": "projection_index=dicomo", "sudire": "", "dicomo": "", "capi": "", "VersatileScaler": "", "Wrapper": "", "GenSpatialSignPreProcessor": ""}
CHANGES = {
    "sprm": (dict(SPRM_OPT, eta=["0.5", "0.0"], n_components=["h", "1"], copy=[TR, FA], verbose=[FA, TR], probp1=["0.95", "0.9"], maxit=["100", "1"]), SPRM_COMMON, "e.fit(X, y)", SPRM_USE[:3]),
    "snipls": (dict(SNIPLS_OPT, n_components=["h", "1"], copy=[TR, FA]), {"n_components": "h"}, "e.fit(X, y)", SNIPLS_USE),
    "rm": (dict(RM_OPT, probp1=["0.95", "0.9"], maxit=["1000", "1"], copy=[TR, FA]), {}, "e.fit(X, y)", [("yp", "e.predict(Xn)")]),
    "ppdire": (dict(PP_OPT, regopt=q("OLS", "robust", "quantile"), n_components=["h", "1"], optimizer=q("SLSQP", "grid"), alpha=["1", "2.0"], pi_arguments=["{'mode': 'cov'}", "{'mode': 'corr'}"], copy=[TR, FA]),
               {"projection_index": "dicomo", "pi_arguments": "{'mode': 'cov'}", "n_components": "h", "optimizer": "'SLSQP'", "optimizer_options": "{'maxiter': 20, 'ndir': 10}", "verbose": FA}, "e.fit(X, y)", PP_USE2),
    "sudire": (dict(SUD_OPT, sudiremeth=SUD_M, n_components=["h", "1"], n_slices=["6", "4"], copy=[TR, FA]), {"n_components": "h", "verbose": FA}, "e.fit(X, y)", SUD_USE),
    "dicomo": ({"mode": q("cov", "var", "std", "skew", "kurt", "com", "cok", "cos", "corr", "continuum", "M3", "mom"), "est": q("arithmetic", "distance"), "center": q("mean", "median")}, {}, "e.fit(x, y=y)", []),
    "capi": ({"max_degree": ["3", "2", "4"], "centring": [FA, TR], "scaling": [TR, FA], "options": ["'all'", "1"], "weights": ["[1, 1, 1, -1, -1, -1]", "[1, 0, 0, 0, 0, 0]"], "projection_index": ["dicomo", "dicomo"], "pi_arguments": ["{}", "{'center': 'median'}"]}, {}, "e.fit(x, y)", []),
    "VersatileScaler": (VS_OPT, {}, "e.fit(X)", VS_USE),
    "GenSpatialSignPreProcessor": ({"center": q("l1median", "mean"), "fun": q("linear_redescending", "ss", "ball", "shell", "quad", "winsor")}, {}, "e.fit(X)", []),
}
XIN = {"x": lambda R, d: resp("x", d.n, "col")}


def change_cases(tier):
    out = []
    for est, (opts, common, fit, uses) in CHANGES.items():
        base = {k: v[0] for k, v in opts.items()}
        base.update(common)
        for k, vs in opts.items():
            for v in vs:
                for w in (vs[:1] if tier == "quick" else vs):
                    if v == w and len(vs) > 1:
                        continue
                    c = Case(est, dict(base, **{k: v}), fit=fit, uses=uses, extra=XIN, key="%s: %s from %s to %s" % (est, k, w, v))
                    c.change = (k, w, v)
                    o = dict(base, **{k: "mark(%s, 'old')" % w})
                    c.old = "%s(%s)" % (est, ", ".join("%s=%s" % x for x in o.items()))
                    out.append(c)
    return out


class OptCase(Case):
    pass


def option_cases(tier):
    out = []
    for est, a in CTORS.items():
        c = OptCase(est, {}, fit="e.fit(X)", ctor="%s(%s)" % (est, a), extra=XIN, key=est + " options")
        c.values = CHANGES[est][0] if est in CHANGES else {}
        out.append(c)
    return out


# --------------------------------------------------------------------------
# requests that cannot be met, and requests at the edge of what can be met
def rng(lo=None, hi=None):
    """any number in an interval"""
    return Num("float", lo=lo, hi=hi, f=F(DIMLESS, term=T("in", "interval", lo, hi)))


EPS = 2.0 ** -20
BELOW0, FROM1, ABOVE1, UPTO0 = rng(None, -EPS), rng(1.0, None), rng(1 + EPS, None), rng(None, 0.0)
INT = lambda q: Num("int", poly=q, f=F(DIMLESS, term=T("dim", q)))


def shorter(R, d, yc):
    return resp("y", d.n - 1, yc)


def longer(R, d, yc):
    return resp("y", d.n + 1 + Poly.sym("z"), yc)


def single(R, d, yc):
    return resp("y", ONE, yc)


def req(est, opts, why, fit="e.fit(X, y)", dv="tall", ctor=None, uses=(), **k):
    extra = dict(XIN)
    extra.update(k.pop("extra", {}))
    c = Case(est, opts, dv, fit=fit, ctor=ctor, extra=extra, uses=uses, **k)
    c.key = "%s|%s|%s|%s|x=%s,y=%s|%s" % (c.ctor, c.fit, ";".join(u for _, u in uses), dv, c.xc, c.yc, why)
    c.why = why
    return c


def bad_cases(tier):
    out = []
    A = lambda *a, **k: out.append(req(*a, **k))
    manyp = {"hx": lambda R, d: INT(d.p + 1 + Poly.sym("z"))}
    manyn = {"hx": lambda R, d: INT(d.n + 1)}
    V = lambda v: {"val": v}
    nv = {"n_components": "h", "verbose": FA}
    SET = lambda est, k, v, base="": "%s(%s).set_params(%s=%s)" % (est, base, k, v)
    # more components than variables or cases; none; a negative number
    for est, base, fits in (("sprm", {"verbose": FA}, ("e.fit(X, y)",)), ("snipls", {"verbose": FA}, ("e.fit(X, y)",)),
                            ("ppdire", {"projection_index": "dicomo", "pi_arguments": "{'mode': 'cov'}", "verbose": FA, "optimizer": "'SLSQP'", "optimizer_options": "{'maxiter': 20}"}, ("e.fit(X, y)",)),
                            ("ppdire", {"projection_index": "dicomo", "pi_arguments": "{'mode': 'var'}", "verbose": FA, "optimizer_options": GRIDO}, ("e.fit(X)",)),
                            ("sudire", {"sudiremeth": "'sir'", "verbose": FA}, ("e.fit(X, y)",)), ("sudire", {"sudiremeth": "'phd'", "verbose": FA}, ("e.fit(X, y)",)),
                            ("sudire", {"sudiremeth": "'dcov-sdr'", "verbose": FA}, ("e.fit(X, y)",))):
        for fit in fits:
            A(est, dict(base, n_components="hx"), "more components than variables", fit=fit, extra=manyp)
            for xc, yc in (("frame", "series"), ("nd", "1d")):
                A(est, dict(base, n_components="hx"), "more components than variables", fit=fit, extra=manyp, xc=xc, yc=yc)
            A(est, dict(base, n_components="hx"), "more components than cases", fit=fit, extra=manyn, dv="wide")
    for est in ("sprm", "snipls"):
        for v in ("0", "-1"):
            A(est, {"n_components": v, "verbose": FA}, "no components")
            A(est, {}, "no components", ctor=SET(est, "n_components", v, "verbose=False"))
        A(est, {}, "more components than variables", ctor=SET(est, "n_components", "hx", "verbose=False"), extra=manyp)
    A("ppdire", {"projection_index": "dicomo", "pi_arguments": "{'mode': 'var'}", "n_components": "1", "verbose": FA, "optimizer_options": GRIDO}, "more components than variables", fit="e.fit(X, h=hx)", extra=manyp)
    # sparsity
    for est in ("sprm", "snipls"):
        for nm, v in (("below 0", BELOW0), ("at least 1", FROM1), ("1", num(1.0)), ("1", num(1))):
            A(est, dict(nv, eta="val"), "eta " + nm, extra=V(v))
            A(est, {}, "eta " + nm + " set later", ctor=SET(est, "eta", "val", "n_components=h, verbose=False"), extra=V(v))
    # cut-offs
    for est, base in (("sprm", nv), ("rm", {"verbose": FA})):
        for f in q("Hampel", "Huber", "Fair"):
            A(est, dict(base, fun=f, probp1="val"), "probp1 at most 0", extra=V(UPTO0))
            A(est, dict(base, fun=f, probp1="val"), "probp1 above 1", extra=V(ABOVE1))
        A(est, dict(base, probp1="0.9", probp2="val"), "probp2 at most probp1", extra=V(rng(None, 0.9)))
        A(est, dict(base, probp2="0.9", probp1="val"), "probp1 at least probp2", extra=V(rng(0.9, 1.0)))
        A(est, dict(base, probp2="0.97", probp3="val"), "probp3 at most probp2", extra=V(rng(None, 0.97)))
        A(est, dict(base, probp3="val"), "probp3 above 1", extra=V(ABOVE1))
        A(est, dict(base, fun="'Tukey'"), "unknown weight function")
        A(est, dict(base, centre="'nowhere'"), "unknown centring")
        A(est, dict(base, scale="'nothing'"), "unknown scale")
    for k in ("centre", "scale"):
        A("snipls", dict(nv, **{k: "'nowhere'"}), "unknown " + k)
    for est in ("sprm", "snipls"):
        A(est, dict(nv, columns=TR), "column names asked of an array")
    for xc in ("nd", "frame"):
        A("sprm", nv, "unknown scoring", uses=[("vs", "e.valscore(Xn, yn, 'magic')")], xc=xc)
    # predictors and response of different length
    for yc in ("col", "1d", "series", "frame"):
        for nm, fn in (("shorter", shorter), ("longer", longer), ("a single case, shorter", single)):
            e = {"y": lambda R, d, fn=fn, yc=yc: fn(R, d, yc)}
            for est, base in (("sprm", nv), ("rm", {"verbose": FA}), ("snipls", nv), ("sudire", dict(nv, sudiremeth="'sir'")), ("sudire", dict(nv, sudiremeth="'phd'")), ("sudire", dict(nv, sudiremeth="'dcov-sdr'")),
                              ("ppdire", {"projection_index": "dicomo", "pi_arguments": "{'mode': 'cov'}", "n_components": "h", "verbose": FA, "optimizer": "'SLSQP'", "optimizer_options": "{'maxiter': 20}"})):
                for xc in ("nd",) if tier == "quick" else ("nd", "frame"):
                    A(est, base, "response %s than predictors" % nm, extra=e, xc=xc, yc=yc)
    for yc in ("1d", "col"):
        for nm, fn in (("shorter", shorter), ("longer", longer), ("a single case, shorter", single)):
            e = {"y": lambda R, d, fn=fn, yc=yc: fn(R, d, yc), "x": lambda R, d, yc=yc: resp("x", d.n, yc)}
            for m in DI2:
                A("dicomo", {"mode": m}, "second block %s" % nm, fit="e.fit(x, y=y)", extra=e, yc=yc)
            for m in q("mdd", "mdc", "cov", "corr"):
                A("dicomo", {"mode": m, "est": "'distance'"}, "second block %s" % nm, fit="e.fit(x, y=y)", extra=e, yc=yc)
            for m in q("cov", "com", "corr"):
                A("dicomo", {"mode": m, "est": "'distance'"}, "second block %s" % nm, fit="e.fit(x, y=y, calcmode='naive')", extra=e, yc=yc)
            A("capi", {}, "second block %s" % nm, fit="e.fit(x, y)", extra=e, yc=yc)
    # co-moments
    for m in DI2:
        A("dicomo", {"mode": m}, "no second block", fit="e.fit(x)")
    for m in q("mdd", "mdc", "cov", "corr", "com"):
        A("dicomo", {"mode": m, "est": "'distance'"}, "no second block", fit="e.fit(x)")
    A("ppdire", {"projection_index": "dicomo", "pi_arguments": "{'mode': 'cov'}", "n_components": "h", "verbose": FA, "optimizer": "'SLSQP'", "optimizer_options": "{'maxiter': 20}"}, "no second block", fit="e.fit(X)")
    A("dicomo", {"mode": "'median'"}, "unknown mode", fit="e.fit(x, y=y)")
    A("dicomo", {"est": "'rank'"}, "unknown estimator class", fit="e.fit(x, y=y)")
    A("dicomo", {"center": "'mode'"}, "unknown centring", fit="e.fit(x, y=y)")
    for m in DID:
        A("dicomo", {"mode": m}, "difference divergence without distances", fit="e.fit(x, y=y)")
    A("capi", {"max_degree": "val"}, "degree too high", fit="e.fit(x, y)", extra=V(num(5)))
    # projection pursuit and sufficient dimension reduction
    pp = {"projection_index": "dicomo", "pi_arguments": "{'mode': 'cov'}", "n_components": "h", "verbose": FA, "optimizer": "'SLSQP'", "optimizer_options": "{'maxiter': 20}"}
    A("ppdire", dict(pp, pi_arguments="{'mode': 'median'}"), "unknown mode")
    A("ppdire", dict(pp, pi_arguments="{'mode': 'var', 'est': 'rank'}"), "unknown estimator class")
    A("ppdire", dict(pp, center="'nowhere'"), "unknown centring")
    A("ppdire", dict(pp, optimizer="'magic'"), "unknown optimizer")
    A("ppdire", dict(pp, regopt="'magic'"), "unknown regression option")
    for m in SUD_M:
        A("sudire", dict(nv, sudiremeth=m, center="'nowhere'"), "unknown centring")
    A("sudire", dict(nv, sudiremeth="'magic'"), "unknown method")
    for nm, v in (("below 0", BELOW0), ("at least 1", FROM1)):
        A("ppdire", dict(pp, trimming="val"), "trimming " + nm, extra=V(v))
        A("sudire", dict(nv, trimming="val"), "trimming " + nm, extra=V(v))
        A("VersatileScaler", {"trimming": "val"}, "trimming " + nm, fit="e.fit(X)", extra=V(v))
        A("VersatileScaler", {"trimming": "val"}, "trimming " + nm, fit="e.fit_transform(X)", extra=V(v))
        A("versatile_scale", {}, "trimming " + nm, ctor="None", fit="versatile_scale(X, trimming=val)", extra=V(v))
        for m in DI1 + DI2:
            A("dicomo", {"mode": m}, "trimming " + nm, fit="e.fit(x, y=y, trimming=val)" if m in DI2 else "e.fit(x, trimming=val)", extra=V(v))
    # preprocessing
    for k in ("center", "scale"):
        A("VersatileScaler", {k: "'nowhere'"}, "unknown " + k, fit="e.fit(X)")
        A("versatile_scale", {}, "unknown " + k, ctor="None", fit="versatile_scale(X, %s='nowhere')" % k)
    A("GenSpatialSignPreProcessor", {"fun": "'magic'"}, "unknown function", fit="e.fit(X)")
    A("GenSpatialSignPreProcessor", {"center": "'nowhere'"}, "unknown center", fit="e.fit(X)")
    A("gen_ss_pp", {}, "unknown function", ctor="None", fit="gen_ss_pp(X, fun='magic')")
    A("gen_ss_covmat", {}, "unknown function", ctor="None", fit="gen_ss_covmat(X, fun='magic')")
    A("estimate_structural_dim", {}, "unknown method", ctor="None", fit="estimate_structural_dim('magic', X, y, 5, verbose=False)")
    # plots of validation cases only, without such cases; plots of something else
    for nm, est, calls in PLOTS:
        for call in calls:
            if "onlyval" in call:
                A(est, PLOTFIT[est], "validation plot without new cases", uses=[("pl", "%s(e, ['r', 'b'])" % nm), ("pp", "pl." + call)])
    for nm, est, calls in PLOTS:
        A(est, PLOTFIT[est], "plot of something else", uses=[("pl", "%s(X, ['r', 'b'])" % nm)])
    return out


PLOTFIT = {"sprm": {"n_components": "h", "verbose": FA}, "sudire": {"n_components": "h", "verbose": FA, "sudiremeth": "'phd'"},
           "ppdire": {"projection_index": "dicomo", "pi_arguments": "{'mode': 'cov'}", "n_components": "h", "verbose": FA, "optimizer": "'SLSQP'", "optimizer_options": "{'maxiter': 20}"}}
PLOTS = [("sprm_plot", "sprm", ("plot_yyp(onlyval=True)", "plot_projections(onlyval=True)", "plot_caseweights(onlyval=True)")),
         ("ppdire_plot", "ppdire", ("plot_yyp(onlyval=True)", "plot_projections(onlyval=True)")),
         ("sudire_plot", "sudire", ("plot_yyp(onlyval=True)", "plot_projections(onlyval=True)"))]


def edge_cases(tier):
    out = []
    A = lambda *a, **k: out.append(req(*a, **k))
    V = lambda v: {"val": v}
    nv = {"n_components": "h", "verbose": FA}
    pp = {"projection_index": "dicomo", "pi_arguments": "{'mode': 'cov'}", "n_components": "h", "verbose": FA, "optimizer": "'SLSQP'", "optimizer_options": "{'maxiter': 20}"}
    allp = {"hx": lambda R, d: INT(d.p)}
    alln = {"hx": lambda R, d: INT(d.n)}
    for est, base in (("sprm", nv), ("snipls", nv), ("ppdire", pp), ("sudire", dict(nv, sudiremeth="'sir'")), ("sudire", dict(nv, sudiremeth="'phd'"))):
        A(est, dict(base, n_components="hx"), "as many components as variables", extra=allp)
        A(est, dict(base, n_components="1"), "one component")
        if est in ("sprm", "snipls"):
            A(est, dict(base, n_components="hx"), "as many components as cases", extra=alln, dv="wide")
            for v in (num(0.0), num(0), rng(0.0, 1 - EPS)):
                A(est, dict(base, eta="val"), "eta in [0,1)", extra=V(v))
    for est, base in (("sprm", nv), ("rm", {"verbose": FA})):
        for f in q("Huber", "Fair"):
            A(est, dict(base, fun=f, probp1="val"), "probp1 in (0,1]", extra=V(num(1.0)))
            A(est, dict(base, fun=f, probp1="val"), "probp1 in (0,1]", extra=V(rng(EPS, 1.0)))
            A(est, dict(base, fun=f, probp1="0.99", probp2="0.5", probp3="0.4"), "cut-offs the function does not use")
        A(est, dict(base, probp1="val"), "probp1 in (0,probp2)", extra=V(rng(EPS, 0.97)))
        A(est, dict(base, probp3="1.0"), "probp3 at 1")
        A(est, dict(base, probp3="1"), "probp3 at 1")
        A(est, dict(base, probp2="val"), "probp2 between", extra=V(rng(0.951, 0.998)))
    for v in (num(0), num(0.0), rng(0.0, 1 - EPS)):
        A("VersatileScaler", {"trimming": "val"}, "trimming in [0,1)", fit="e.fit(X)", extra=V(v))
        A("ppdire", dict(pp, trimming="val"), "trimming in [0,1)", extra=V(v))
        A("sudire", dict(nv, trimming="val"), "trimming in [0,1)", extra=V(v))
        A("dicomo", {"mode": "'cov'"}, "trimming in [0,1)", fit="e.fit(x, y=y, trimming=val)", extra=V(v))
    return out


# --------------------------------------------------------------------------
# new data with other columns than the training data
def newx_cases(tier):
    out = []
    base = []
    for f in q("Hampel", "Huber", "Fair"):
        base.append(("sprm", {"n_components": "h", "verbose": FA, "fun": f}, "e.fit(X, y)", ["predict", "transform", "weightnewx", "valscore"]))
    base.append(("snipls", {"n_components": "h", "verbose": FA}, "e.fit(X, y)", ["predict", "transform"]))
    base.append(("snipls", {"n_components": "h", "verbose": FA, "scale": "'mad'", "centre": "'median'"}, "e.fit(X, y)", ["predict", "transform"]))
    for f in q("Hampel", "Huber", "Fair"):
        base.append(("rm", {"verbose": FA, "fun": f}, "e.fit(X, y)", ["predict"]))
    pp = PLOTFIT["ppdire"]
    for o in ({}, {"center": "'median'"}, {"scale_data": FA}, {"center_data": FA, "scale_data": FA}, {"whiten_data": TR}):
        base.append(("ppdire", dict(pp, **o), "e.fit(X, y)", ["predict", "transform"]))
    base.append(("ppdire", dict(pp, pi_arguments="{'mode': 'var'}"), "e.fit(X)", ["transform"]))
    for m in SUD_M:
        for o in ({}, {"center": "'median'"}, {"center_data": FA, "scale_data": FA}, {"whiten_data": TR}, {"scale_data": FA}):
            base.append(("sudire", dict({"n_components": "h", "verbose": FA, "sudiremeth": m}, **o), "e.fit(X, y)", ["predict", "transform"]))
    for c in q("mean", "median", "l1median", "kstepLTS", "None"):
        for s in q("std", "mad", "scaleTau2", "None"):
            base.append(("VersatileScaler", {"center": c, "scale": s}, "e.fit(X)", ["predict", "transform", "inverse_transform"]))
    base.append(("Wrapper", {}, "e.fit(X)", ["predict", "transform"]))
    for est, o, fit, ms in base:
        for dv in ("tall",) if tier == "quick" else ("tall", "h1", "p2"):
            c = Case(est, o, dv, fit=fit)
            c.methods = ms
            out.append(c)
    return out


PLOTNS = {"names": Names("n"), "namesv": Names("m"), "columns": names, "colors": Names(items=list("rbgkrbgk"))}


def plot_cases(tier):
    """every plot method, with and without new cases, labels and titles"""
    out = []
    yyp = ["plot_yyp()", "plot_yyp(ytruev=yn, Xn=Xn)", "plot_yyp(ytruev=yn, Xn=Xn, label='abc', title='t', onlyval=True)", "plot_yyp(names=names, title='t')", "plot_yyp(ytruev=yn, Xn=Xn, names=names, namesv=namesv)"]
    prj = ["plot_projections()", "plot_projections(Xn=Xn)", "plot_projections(Xn=Xn, label='abc', title='t', onlyval=True)", "plot_projections(names=names, components=[1, 0])", "plot_projections(Xn=Xn, names=names, namesv=namesv)"]
    cw = ["plot_caseweights()", "plot_caseweights(Xn=Xn)", "plot_caseweights(Xn=Xn, label='abc', title='t', onlyval=True)", "plot_caseweights(names=names, mode='x')", "plot_caseweights(Xn=Xn, names=names, namesv=namesv, mode='y')"]
    co = ["plot_coeffs()", "plot_coeffs(truncation=0.5, title='t')", "plot_coeffs(entity='x_weights_')", "plot_coeffs(columns=columns)", "plot_coeffs(columns=columns, truncation=0.2)"]
    for nm, est, sets in (("sprm_plot", "sprm", (yyp, prj, cw, co)), ("ppdire_plot", "ppdire", (yyp, prj)), ("sudire_plot", "sudire", (yyp, prj))):
        for xc, yc in (("nd", "col"), ("nd", "1d"), ("frame", "series")):
            if tier == "quick" and yc == "col" and est != "sprm":
                continue
            for calls in sets:
                us = [("pl", "%s(e, colors)" % nm)] + [("pp", "pl." + call) for call in calls]
                c = Case(est, PLOTFIT[est], "tall", uses=us, xc=xc, yc=yc, extra=PLOTNS, key="%s.%s...|x=%s,y=%s" % (nm, calls[0][:-1], xc, yc))
                c.plot = True
                out.append(c)
    return out


def weight_cases(tier):
    out = []
    for f in ("Fair", "Huber", "Hampel"):
        ex = {k: Num("float", f=F(DIMLESS, term=T("in", k))) for k in "abr"}
        ex["f"] = lambda R, d, f=f: R.lookup("direpack.sprm._m_support_functions." + f)
        ex["x"] = lambda R, d: Arr((d.n,), lo=0, f=F(DIMLESS, PT, frozenset(["x"]), T("in", "x")))
        out.append(Case(f, {}, ctor="None", fit="None", extra=ex, key="weight function " + f))
    return out


def column_cases(tier):
    out = []
    for o in product(VS_OPT):
        out.append(Case("VersatileScaler", o, "cols", fit="e.fit(X)"))
    return out


# --------------------------------------------------------------------------
# options and the results they govern: how, option, the value followed (or the values
# compared), results, settings under which it matters
def effect(est):
    L, V = "label", "values"
    X, Y = "x", "y"
    return {
        "sprm": [
            (L, "fun", q("Hampel", "Fair"), ["caseweights_", "coef_", "predict"], {}),
            (L, "centre", q("median", "l1median"), ["x_loc_", "y_loc_", "coef_"], {}),
            (L, "scale", q("mad", "std"), ["x_sca_", "y_sca_", "coef_"], {}),
            (L, "start_cutoff_mode", q("specific", "other"), ["caseweights_", "coef_"], {}),
            (L, "start_X_init", q("pcapp", "none"), ["caseweights_", "coef_"], {}),
            (L, "eta", ["0.5", "0.2"], ["x_weights_", "coef_", "colret_"], {}),
            (L, "n_components", ["h", "1"], ["x_scores_", "coef_"], {}),
            (L, "probp1", ["0.95", "0.9"], ["caseweights_", "coef_"], {}),
            (L, "probp2", ["0.975", "0.96"], ["caseweights_", "coef_"], {}),
            (L, "probp3", ["0.999", "0.99"], ["caseweights_", "coef_"], {}),
            (L, "maxit", ["100", "5"], ["caseweights_", "coef_"], {}),
            (L, "tol", ["0.01", "0.1"], ["caseweights_", "coef_"], {}),
        ],
        "snipls": [
            (L, "centre", q("mean", "median"), ["x_loc_", "y_loc_", "coef_"], {}),
            (L, "scale", q("std", "mad"), ["x_sca_", "y_sca_", "coef_"], {}),
            (L, "eta", ["0.5", "0.2"], ["x_weights_", "coef_", "colret_"], {}),
            (L, "n_components", ["h", "1"], ["x_scores_", "coef_"], {}),
        ],
        "rm": [
            (L, "fun", q("Hampel", "Fair"), ["caseweights_", "coef_", "predict"], {}),
            (L, "centre", q("median", "l1median"), ["x_loc_", "y_loc_", "coef_"], {}),
            (L, "scale", q("mad", "std"), ["x_sca_", "y_sca_", "coef_"], {}),
            (L, "start_cutoff_mode", q("specific", "other"), ["caseweights_", "coef_"], {}),
            (L, "probp1", ["0.95", "0.9"], ["caseweights_", "coef_"], {}),
            (L, "probp2", ["0.975", "0.96"], ["caseweights_", "coef_"], {}),
            (L, "probp3", ["0.999", "0.99"], ["caseweights_", "coef_"], {}),
            (L, "maxit", ["1000", "5"], ["caseweights_", "coef_"], {}),
            (L, "tol", ["0.01", "0.1"], ["caseweights_", "coef_"], {}),
        ],
        "ppdire": [
            (V, "center", q("mean", "median"), ["x_loc_", "coef_"], {}),
            (L, "center_data", [TR, FA], ["x_loc_", "y_loc_", "coef_"], {}),
            (L, "scale_data", [TR, FA], ["x_sca_", "coef_"], {}),
            (L, "whiten_data", [TR, FA], ["x_scores_", "coef_"], {}),
            (L, "trimming", ["0.1", "0.2"], ["x_loc_", "x_scores_", "coef_"], {}),
            (L, "alpha", ["1", "2.0"], ["x_scores_", "coef_"], {"pi_arguments": "{'mode': 'continuum'}"}),
            (L, "n_components", ["h", "1"], ["x_scores_", "coef_"], {}),
            (L, "square_pi", [TR, FA], ["crit_values_"], {}),
            (L, "regopt", q("OLS", "robust"), ["coef_", "fitted_"], {}),
            (L, "optimizer", q("SLSQP", "grid"), ["x_scores_", "coef_"], {}),
            (L, "biascorr=", [TR, FA], ["x_scores_", "coef_"], {}),
            (L, "quantile=", ["0.5", "0.3"], ["coef_", "fitted_"], {"regopt": "'quantile'"}),
            (L, "fun=", q("Hampel", "Fair"), ["coef_", "fitted_"], {"regopt": "'robust'"}),
            (L, "probp1=", ["0.95", "0.9"], ["coef_", "fitted_"], {"regopt": "'robust'"}),
            (L, "probp2=", ["0.975", "0.96"], ["coef_", "fitted_"], {"regopt": "'robust'"}),
            (L, "probp3=", ["0.999", "0.99"], ["coef_", "fitted_"], {"regopt": "'robust'"}),
        ],
        "sudire": [
            (V, "center", q("mean", "median"), ["x_loc_", "proj_mat_"], {}),
            (L, "center_data", [TR, FA], ["x_loc_", "proj_mat_"], {}),
            (L, "scale_data", [TR, FA], ["proj_mat_", "x_scores_"], {}),
            (L, "whiten_data", [TR, FA], ["proj_mat_"], {}),
            (L, "trimming", ["0.1", "0.2"], ["x_loc_"], {}),
            (L, "n_components", ["h", "1"], ["proj_mat_", "x_scores_"], {}),
            (L, "n_slices", ["6", "4"], ["proj_mat_"], {}),
            (L, "n_slices", ["6", "4"], ["proj_mat_"], {"sudiremeth": "'save'"}),
            (L, "n_slices", ["6", "4"], ["proj_mat_"], {"sudiremeth": "'dr'"}),
            (L, "dmetric", q("euclidean", "cityblock"), ["proj_mat_", "x_scores_"], {"sudiremeth": "'dcov-sdr'"}),
            (L, "dmetric", q("euclidean", "cityblock"), ["proj_mat_", "x_scores_"], {"sudiremeth": "'mdd-sdr'"}),
            (L, "dmetric=", q("euclidean", "cityblock"), ["proj_mat_", "x_scores_"], {"sudiremeth": "'dcov-sdr'"}),
            (L, "fit_ols", [TR, FA], ["ols_obj_"], {}),
            (V, "sudiremeth", q("sir", "save", "dr", "phd", "iht"), ["proj_mat_"], {}),
        ],
        "dicomo": [
            (V, "mode", q("var", "std", "skew", "kurt"), ["moment_"], {}),
            (V, "mode", q("cov", "com", "cok", "cos", "corr", "continuum"), ["moment_"], {}),
            (V, "mode", q("var", "std"), ["moment_"], {"est": "'distance'"}),
            (V, "mode", q("cov", "corr", "continuum"), ["moment_"], {"est": "'distance'"}),
            (V, "est", q("arithmetic", "distance"), ["moment_"], {"mode": "'cov'"}),
            (V, "est", q("arithmetic", "distance"), ["moment_"], {"mode": "'corr'"}),
            (V, "center", q("mean", "median"), ["moment_"], {"mode": "'cov'"}),
            (L, "trimming=", ["0.1", "0.2"], ["moment_"], {"mode": "'var'"}),
            (L, "trimming=", ["0.1", "0.2"], ["moment_"], {"mode": "'cov'"}),
            (L, "trimming=", ["0.1", "0.2"], ["moment_"], {"mode": "'corr'"}),
            (V, "biascorr=", [TR, FA], ["moment_"], {"mode": "'cov'"}),
            (V, "biascorr=", [TR, FA], ["moment_"], {"mode": "'var'"}),
            (V, "biascorr=", [TR, FA], ["moment_"], {"mode": "'cov'", "est": "'distance'"}),
            (V, "option=", ["1", "2"], ["moment_"], {"mode": "'cos'"}),
            (V, "option=", ["1", "2", "3"], ["moment_"], {"mode": "'cok'"}),
            (V, "order=", ["2", "3"], ["moment_"], {"mode": "'mom'"}),
            (L, "dmetric=", q("euclidean", "cityblock"), ["moment_"], {"mode": "'cov'", "est": "'distance'", "center": "'median'"}),
            (L, "dmetric=", q("euclidean", "cityblock"), ["moment_"], {"mode": "'var'", "est": "'distance'", "center": "'median'"}),
            (L, "alpha=", ["1.0", "2.0"], ["moment_"], {"mode": "'continuum'"}),
            (L, "alpha=", ["1.0", "2.0"], ["moment_"], {"mode": "'continuum'", "est": "'distance'"}),
            (L, "standardized=", [TR, FA], ["moment_"], {"mode": "'cos'"}),
            (L, "standardized=", [TR, FA], ["moment_"], {"mode": "'cok'"}),
            (L, "Fisher=", [TR, FA], ["moment_"], {"mode": "'cok'"}),
            (L, "Fisher=", [TR, FA], ["moment_"], {"mode": "'kurt'", "biascorr": TR}),
        ],
        "capi": [
            (V, "max_degree", ["2", "3", "4"], ["capi_index_", "moments_"], {"options": "'all'"}),
            (L, "scaling", [TR, FA], ["capi_index_"], {}),
            (L, "scaling", [TR, FA], ["capi_index_"], {"centring": TR}),
            (L, "weights", ["[1, 1, 1, -1, -1, -1]", "[1, 0, 0, 0, 0, 0]"], ["capi_index_"], {}),
        ],
        "VersatileScaler": [
            (V, "center", q("mean", "median", "l1median", "kstepLTS"), ["col_loc_", "datas_", "transform"], {}),
            (V, "scale", q("std", "mad", "scaleTau2"), ["col_sca_", "datas_", "transform"], {}),
            (L, "trimming", ["0.1", "0.2"], ["col_loc_", "col_sca_"], {}),
        ],
        "GenSpatialSignPreProcessor": [
            (V, "center", q("l1median", "mean", "median", "kstepLTS"), ["gss_"], {}),
            (V, "fun", q("ss", "ball", "shell", "quad", "winsor", "linear_redescending"), ["gss_"], {}),
        ],
        "function": [
            (V, "gen_ss_pp(X, fun=OPTION)", q("ss", "ball", "shell", "quad", "winsor", "linear_redescending"), ["r"], {}),
            (V, "gen_ss_pp(X, center=OPTION)", q("mean", "l1median"), ["r"], {}),
            (V, "gen_ss_covmat(X, fun=OPTION)", q("ss", "ball", "shell", "quad", "winsor", "linear_redescending"), ["r"], {}),
            (V, "gen_ss_covmat(X, center=OPTION)", q("mean", "l1median"), ["r"], {}),
            (V, "versatile_scale(X, center=OPTION)", q("mean", "median", "l1median"), ["r"], {}),
            (V, "versatile_scale(X, scale=OPTION)", q("std", "mad", "scaleTau2"), ["r"], {}),
            (V, "versatile_scale(X, 'mean', 'std', trimming=OPTION)", ["0", "0.1", "0.2"], ["r"], {}),
        ],
    }[est]


def effect_cases(tier):
    out = []
    for est in list(CHANGES) + ["function"]:
        opts, common, fit, uses = CHANGES.get(est) or ({}, {}, "", [])
        base = {k: v[0] for k, v in opts.items()}
        base.update(common)
        for how, k, vs, want, ctx in effect(est):
            b = dict(base, **{x: v for x, v in ctx.items() if x in base})
            kw = ", ".join("%s=%s" % (x, v) for x, v in ctx.items() if x not in base)
            f = fit if not k.endswith("=") else fit[:-1] + ", " + k + "OPTION)"
            if kw:
                f = f[:-1] + ", " + kw + ")"
            c = Case(est, b, fit=f if est != "function" else k, uses=uses[:2] if k != "fit_ols" else (), extra=XIN, key="%s option %s %s%s" % (est, k, ctx or "", fit), ctor="None" if est == "function" else None)
            c.how, c.opt, c.vals, c.want, c.base = how, k, vs, want, b
            out.append(c)
    return out


GROUPS = {"effect": effect_cases, "vector": vector_cases, "plot": plot_cases, "column": column_cases, "weight": weight_cases, "newx": newx_cases, "bad": bad_cases, "edge": edge_cases, "change": change_cases, "option": option_cases,
          "sprm": sprm_cases, "snipls": snipls_cases, "rm": rm_cases, "ppdire": ppdire_cases, "sudire": sudire_cases,
          "dicomo": dicomo_cases, "capi": capi_cases, "scaler": scaler_cases, "function": function_cases}


class ModuleCase:
    def __init__(self, name):
        self.module, self.key, self.est = name, "module " + name, name


def modules(tier):
    from . import engine
    return [ModuleCase(n) for n in sorted(engine.runner().prog.modules)]


def cases(groups, tier):
    out, seen = [], set()
    for g in groups:
        for c in GROUPS[g](tier):
            if c.key not in seen:
                seen.add(c.key)
                c.group = g
                out.append(c)
    return out

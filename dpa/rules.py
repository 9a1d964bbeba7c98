"""One function per property: run a scenario and judge what the analysis derives.

Every rule reports a violation only for what the analysis has established; what it
cannot establish is counted as undecided."""
import re
from .values import *
from .poly import Poly, ONE
from . import ext as X
from . import probe
from .scen import arr
from .interp import pykey, same_value
from .catalog import frame, resp, UX, UY
from .spec import SHAPES, DOCATTR, UNITS, ROWS, WEIGHTS, USESHAPE


def fnsite(ev):
    return "%s (%s)" % (ev["file"], ev["fn"])


def at(ev):
    return "%s:%s" % (ev["file"], ev["line"])


def obj(r, st, name="e"):
    v = r.var(st, name)
    return st.get(v.oid) if isinstance(v, Ref) else None


def errors(r):
    return [e for e in r.raises if e.kind == "error"]


def opts(v):
    if isinstance(v, Union):
        return list(v.opts)
    return [v]


def deps(R, st, v):
    R.I.st = st
    return X.deep_deps(R.I, v)


def start(R, c, out, text, **k):
    r = c.run(R, text, **k)
    out.count("scenarios")
    out.count("paths", len(r.ok) + len(r.raises))
    if r.budget:
        out.undecided("step budget")
    elif not r.ok:
        out.undecided("no path completes: %s" % (r.raises[0].fnsite() if r.raises else ""))
        if text == c.script() and c.uses:
            return salvage(R, c, r, **k)
    return r


def salvage(R, c, r, **k):
    """a use call fails on every path: look at the fit and the other calls"""
    base = c.script(uses=False)
    r0 = c.run(R, base, **k)
    if not r0.ok:
        return r
    good = ""
    for nm, call in c.uses:
        t = good + "%s = %s\n" % (nm, call)
        r1 = c.run(R, base + t, **k)
        if r1.ok:
            good, r0 = t, r1
    r0.events = r0.events + r.events
    return r0


# ---------------------------------------------------------------- C09
def c09(R, c, out):
    r = c.run(R, c.script())
    out.count("scenarios")
    if r.budget:
        out.undecided("step budget")
        return
    out.count("paths", len(r.ok) + len(r.raises))
    for e in errors(r):
        out.find("fails-inside", e.fnsite(), e.describe(), e.where)
    for ev in r.ev("maybe-undef", "module-error"):
        out.find(ev["kind"], fnsite(ev) + " " + str(ev.get("name")), "%s may be used before it is assigned" % ev.get("name"), at(ev))
    if not r.ok and not errors(r):
        e = r.raises[0] if r.raises else None
        out.find("refused", e.fnsite() if e else c.est, "documented combination is refused on every path: %s" % (e.describe() if e else "no path"), e.where if e else "")


# ---------------------------------------------------------------- C17
def dims_of(v):
    """shape of a numeric value, () for scalars, None when unknown"""
    if isinstance(v, Arr):
        return v.shape
    if isinstance(v, Num) or isinstance(v, Const) and isinstance(v.v, (int, float)):
        return ()
    return None


def unknown_dim(p):
    return any(s[0] in "k?i" for s in p.syms())


def shape_ok(sh, want):
    """True / False / None (undecided)"""
    if sh is None:
        return None
    if want[0] == "vec":
        n = want[1]
        if n == ONE:
            rest = [d for d in sh if d != ONE]
            if not rest:
                return True
            return None if any(unknown_dim(d) for d in rest) else False
        rest = [d for d in sh if d != ONE]
        if len(rest) == 1 and rest[0] == n:
            return True
        return None if any(unknown_dim(d) for d in rest) else False
    if len(sh) != len(want):
        return None if any(unknown_dim(d) for d in sh) and False else False
    res = True
    for a, b in zip(sh, want):
        if a == b:
            continue
        if unknown_dim(a):
            res = None
        else:
            return False
    return res


def want_of(spec, r, st):
    """expected dimensions under the equalities this path has established"""
    env = {k: r.var(st, "__" + k).poly for k in "nphm"}
    env["1"] = ONE
    o = obj(r, st)
    keep = o.attrs.get("non_zero_scale_vars_") if o is not None else None
    env["q"] = keep.shape[0] if isinstance(keep, Arr) and keep.shape and len(keep.shape) == 1 else env["p"]
    if spec.startswith("v"):
        return ("vec", env[spec[1]])
    return tuple(env[x] for x in spec)


def c17(R, c, out):
    r = start(R, c, out, c.script())
    table = SHAPES.get(c.est, {})
    usetab = USESHAPE.get(c.est, {})
    for st in r.ok:
        o = obj(r, st)
        items = [(k, s, o.attrs.get(k) if o is not None else None) for k, s in table.items() if c.two or k not in DOCATTR.get(c.est, {}).get("two", ())]
        items += [(nm, usetab[nm], r.var(st, nm)) for nm, _ in c.uses if nm in usetab]
        if o is None and c.est in SHAPES:
            items = [("result", SHAPES[c.est]["result"], r.var(st, "r"))]
        for k, s, v in items:
            if v is None:
                continue
            for x in opts(v):
                if x is UNDEF:
                    continue
                want = want_of(s, r, st)
                got = dims_of(x)
                res = shape_ok(got, want)
                if res is None and got is not None and all(s in X.SELECT for d in got for s in d.syms() if s[0] in "k?i"):
                    res = False
                out.count("shape obligations")
                if res is True:
                    out.count("discharged")
                elif res is None:
                    out.undecided("%s.%s" % (c.est, k))
                else:
                    out.find("shape", "%s.%s" % (c.est, k), "%s of %s has shape %s, not %s" % (k, c.est, show_shape(got), show_want(want)))


def show_shape(sh):
    return "(" + ", ".join(str(d) for d in sh) + ")"


def show_want(w):
    return "a vector of length %s" % w[1] if w[0] == "vec" else show_shape(w)


# ---------------------------------------------------------------- C08
def c08(R, c, out):
    r = start(R, c, out, c.script(uses=False))
    doc = DOCATTR.get(c.est)
    if doc is None:
        return
    want = list(doc["always"])
    absent = []
    if c.two:
        want += doc.get("two", [])
    else:
        absent += doc.get("two", [])
    for a, cond in doc.get("flags", {}).items():
        (want if cond(c) else absent).append(a)
    for st in r.ok:
        o = obj(r, st)
        for a in want:
            out.count("attribute obligations")
            v = o.attrs.get(a, UNDEF)
            vs = opts(v)
            if UNDEF in vs:
                out.find("missing-attribute", "%s.%s" % (c.est, a), "documented attribute %s is %s after fit" % (a, "missing" if len(vs) == 1 else "missing on some path"))
            elif any(isinstance(x, Const) and x.v is None for x in vs) and a not in doc.get("none_ok", ()):
                out.find("unset-attribute", "%s.%s" % (c.est, a), "documented attribute %s stays None after fit" % a)
            else:
                out.count("discharged")
        for a in absent:
            out.count("attribute obligations")
            v = o.attrs.get(a, UNDEF)
            if v is UNDEF or isinstance(v, Const) and v.v is None:
                out.count("discharged")
            else:
                out.find("attribute-without-flag", "%s.%s" % (c.est, a), "attribute %s exists although its data block or flag is not given" % a)


# ---------------------------------------------------------------- C01
def c01(R, c, out):
    r = start(R, c, out, c.script())
    out.count("store sites seen", len({(e["file"], e["line"]) for e in r.ev("write", "mutate")}))
    for ev in r.ev("write"):
        bad = sorted({b.split("/")[1] for b in ev["bufs"].split(",") if b.startswith("in/")})
        if bad:
            out.find("writes-caller-data", fnsite(ev) + " " + ",".join(bad), "in-place store may reach the caller's %s" % ", ".join(bad), at(ev))
    own = {}
    for k, v in r.ns.items():
        if isinstance(v, Arr):
            own[v.vid] = k
    for ev in r.ev("header"):
        if ev["vid"] in own:
            out.find("writes-caller-data", fnsite(ev) + " " + own[ev["vid"]], "%s of the caller's %s is changed" % (ev["what"], own[ev["vid"]]), at(ev))
    for ev in r.ev("mutate"):
        if str(ev["tag"]).startswith("caller:"):
            out.find("mutates-caller-object", fnsite(ev) + " " + ev["tag"][7:], "%s on the caller's %s" % (ev["what"], ev["tag"][7:]), at(ev))
    for ev in r.ev("setattr"):
        if str(ev["tag"]).startswith("caller:"):
            out.find("mutates-caller-object", fnsite(ev) + " " + ev["tag"][7:], "attribute %s set on the caller's %s" % (ev["attr"], ev["tag"][7:]), at(ev))


# ---------------------------------------------------------------- C02
MEMORY = {"datas_", "datans_", "dataw_", "datanw_"}


def c02(R, c, out):
    if not c.uses:
        return
    t = c.script(uses=False) + "freeze(e, 'model')\n"
    for nm, call in c.uses:
        if "fit_transform" in call:
            continue
        t += "%s = %s\n" % (nm, call)
    r = start(R, c, out, t)
    out.count("use calls", len(c.uses))
    # attributes that fit does not provide: they matter if later calls depend on them
    fresh = {(ev["tag"], ev["attr"]) for ev in r.ev("setattr") if ev["new"] and str(ev["tag"]).startswith("model")}
    for ev in r.ev("setattr"):
        if str(ev["tag"]).startswith("model"):
            out.count("stores examined")
            if ev["attr"] in MEMORY or ev.get("same") or (ev["tag"], ev["attr"]) in fresh:
                continue
            out.find("changes-model", fnsite(ev) + " " + ev["attr"], "attribute %s of the fitted model (%s) is reassigned when the model is used" % (ev["attr"], ev["tag"]), at(ev))
    for ev in r.ev("mutate"):
        if str(ev["tag"]).startswith("model"):
            out.find("changes-model", fnsite(ev) + " " + ev["tag"], "%s on a container of the fitted model (%s)" % (ev["what"], ev["tag"]), at(ev))
    for ev in r.ev("write"):
        bad = sorted({b.split("/", 1)[1] for b in ev["bufs"].split(",") if b.startswith("model/")} - MEMORY)
        if bad:
            out.find("changes-model", fnsite(ev) + " " + ",".join(bad), "in-place store reaches learned quantity %s" % ", ".join(bad), at(ev))
    shared(r, out)
    if {a for _, a in fresh} - MEMORY:
        us = [(nm, call) for nm, call in c.uses if "fit_transform" not in call]
        t = c.script(uses=False) + "s0 = snapshot(e)\n" + "".join("%s = %s\n" % u for u in us) + "stale(e, s0)\n" + "".join("%s = %s\n" % u for u in us)
        r = start(R, c, out, t)
        for st in r.ok:
            for nm, call in us:
                v = r.var(st, nm)
                if v is not None and "stale" in deps(R, st, v):
                    out.find("depends-on-earlier-use", "%s: %s" % (c.est, call), "the result of %s depends on earlier uses of the fitted model" % call)


def crosspath(R, r, c, labels, skip=(), only=None):
    """results that certainly differ between paths on which a decision that depends on
    one of the labels went different ways"""
    N = None
    seen = set()
    for i, s in enumerate(r.ok):
        for t in r.ok[:i]:
            if not any(k in t.facts and t.facts[k][0] != v and set(d) & labels for k, (v, d) in s.facts.items()):
                continue
            if any(k in t.facts and t.facts[k][0] != v and not set(d) & labels for k, (v, d) in s.facts.items()):
                continue
            b = dict(results(R, r, t, c))
            a = dict(results(R, r, s, c))
            for nm in sorted(set(a) | set(b)):
                if nm in seen or nm.rpartition(".")[2] in skip or only is not None and nm not in only:
                    continue
                x, y = a.get(nm), b.get(nm)
                why = None
                if (x is None) != (y is None):
                    why = "it exists on one path only"
                elif isinstance(x, Arr) and isinstance(y, Arr):
                    if x.shape is not None and y.shape is not None and len(x.shape) != len(y.shape) or x.cont != y.cont and "?" not in (x.cont, y.cont):
                        why = "its form differs"
                elif isinstance(x, Const) and isinstance(y, Const) and x.v != y.v:
                    why = "%r or %r" % (x.v, y.v)
                if why is None and isinstance(x, (Arr, Num)) and isinstance(y, (Arr, Num)):
                    N = N or Norm()
                    if N.compare(term(x), term(y)) is False:
                        why = "its value differs"
                if why:
                    seen.add(nm)
                    yield nm, why


# ---------------------------------------------------------------- C03
def c03(R, c, out):
    r1 = start(R, c, out, "e = %s\ns0 = snapshot(e)\nr = %s\n" % (c.ctor, c.fit), hooks={"flow": ("stale",)})
    if not r1.ok:
        return
    # one state that stands for every way the first fit may have gone
    st = R.I.join_all([s.copy() for s in r1.ok]) if len(r1.ok) > 1 else r1.ok[0]
    r = R.resume(st, "stale(e, s0)\nr = %s\n" % c.fit, {})
    r.ns = r1.ns
    out.count("paths", len(r.ok) + len(r.raises))
    if r.budget:
        out.undecided("step budget")
    elif not r.ok and r.raises:
        e = r.raises[0]
        out.find("second-fit-fails", "%s: %s" % (c.est, e.fnsite()), "an object that was fitted before cannot be fitted again: %s" % e.describe(), e.where)
        return
    eo = {x.oid for x in [s.frames[-1].loc.get("e") for s in r1.ok] if isinstance(x, Ref)}
    pars = ()
    for st in r.ok:
        o = obj(r, st)
        if o is None or not isinstance(o, Obj):
            break
        pars = set(probe.params_of(R.I, o.cls))
        for a, v in sorted(o.attrs.items()):
            if a in pars:
                continue
            out.count("attributes examined")
            d = deps(R, st, v)
            if "stale" in d:
                out.find("depends-on-earlier-fit", "%s.%s" % (c.est, a), "%s after a second fit depends on the first one" % a)
    for nm, why in crosspath(R, r, c, {"stale"}, pars):
        out.find("depends-on-earlier-fit", nm, "%s after a second fit depends on the first one (%s)" % (nm, why))
    for q in (r1, r):
        for ev in q.ev("setattr"):
            if ev["oid"] in eo and ev["attr"] in pars and ev["fn"] not in ("__init__", "<scenario>") and not ev.get("same") and "__init__" not in ev["stack"]:
                out.find("overwrites-option", fnsite(ev) + " " + ev["attr"], "fit overwrites the option %s" % ev["attr"], at(ev))
        shared(q, out)


def shared(r, out):
    for ev in r.ev("mutate"):
        tg = str(ev["tag"])
        if tg.startswith(("default:", "classattr:", "module:")):
            out.find("changes-shared-state", fnsite(ev) + " " + tg, "%s on an object shared between calls (%s)" % (ev["what"], tg), at(ev))
        elif tg.startswith("caller:"):
            out.find("overwrites-option", fnsite(ev) + " " + tg, "%s on the option object %s" % (ev["what"], tg[7:]), at(ev))
    for ev in r.ev("setattr"):
        if str(ev["tag"]).startswith(("default:", "classattr:", "module:")):
            out.find("changes-shared-state", fnsite(ev) + " " + ev["tag"], "attribute %s set on an object shared between calls (%s)" % (ev["attr"], ev["tag"]), at(ev))
    for ev in r.ev("write"):
        for b in sorted(b for b in ev["bufs"].split(",") if b.startswith("shared/")):
            out.find("changes-shared-state", fnsite(ev) + " " + b[7:], "in-place store reaches an array shared between calls (%s)" % b[7:], at(ev))
    for ev in r.ev("global-write"):
        if "import" in str(ev.get("stack", "")) or ev["fn"] == "<module>":
            continue
        out.find("changes-shared-state", fnsite(ev) + " " + str(ev.get("name")), "module or class state %s is changed" % ev.get("name"), at(ev))


# ---------------------------------------------------------------- C12
NONDET = {"rng": "random numbers", "setorder": "iteration order of a set", "uninit": "uninitialised memory", "clock": "the clock", "env": "the process environment", "objid": "object identities"}


def results(R, r, st, c):
    o = obj(r, st)
    if o is not None and isinstance(o, Obj):
        for a, v in sorted(o.attrs.items()):
            yield "%s.%s" % (c.est, a), v
    for nm, call in [("r", c.fit)] + c.uses:
        v = r.var(st, nm)
        if v is not None and not (isinstance(v, Ref) and isinstance(r.var(st, "e"), Ref) and v.oid == r.var(st, "e").oid):
            yield "%s: %s" % (c.est, call), v


def c12(R, c, out):
    if "differential_evolution" in c.key or c.est == "estimate_structural_dim":
        return
    r = start(R, c, out, c.script())
    for st in r.ok:
        for nm, v in results(R, r, st, c):
            out.count("results examined")
            d = deps(R, st, v)
            bad = sorted(set(NONDET) & d)
            if bad:
                out.find("nondeterministic", nm, "%s depends on %s" % (nm, ", ".join(NONDET[b] for b in bad)))
    for nm, why in crosspath(R, r, c, set(NONDET)):
        out.find("nondeterministic", nm, "%s depends on a decision that differs between runs (%s)" % (nm, why))
    for ev in r.ev("rng"):
        out.find("draws-random-numbers", fnsite(ev), "random numbers are drawn (%s)" % ev.get("name"), at(ev))


# ---------------------------------------------------------------- C16
def c16(R, c, out):
    if c.xc == "nd" and c.yc == "col" and c.est not in ("dicomo",):
        return
    r = start(R, c, out, c.script())
    for ev in r.ev("label-align"):
        out.find("label-alignment", fnsite(ev), "arithmetic between differently labelled pandas objects (%s)" % ev["labels"], at(ev))
    keep = {"X", "y", "X0", "y0", "x", "Xs", "datas_", "datans_", "columns"}
    pars = None
    for st in r.ok:
        for nm, v in results(R, r, st, c):
            a = nm.rpartition(".")[2]
            if nm.startswith(c.est + ".") and (a in keep or not a.endswith("_")):
                continue
            for x in opts(v):
                out.count("results examined")
                if isinstance(x, Arr):
                    if x.cont in ("frame", "series") and a != "colret_":
                        out.find("pandas-result", nm, "%s is a pandas %s for pandas input, an array for array input" % (nm, x.cont))
                    elif x.cont == "mat":
                        out.find("matrix-result", nm, "%s is a numpy matrix" % nm)


# ---------------------------------------------------------------- C14
def c14(R, c, out):
    if not c.case_syms():
        return
    tab = ROWS.get(c.est)
    if tab is None:
        return
    # direction searches that start from the first case, or iterate, make no promise
    if c.est == "ppdire" and c.opts.get("optimizer") != "'grid'" or c.est == "sudire" and c.opts.get("sudiremeth") not in ("'phd'", "'iht'"):
        return
    r = start(R, c, out, c.script(uses=False))
    for st in r.ok:
        o = obj(r, st)
        items = [(a, o.attrs.get(a), w) for a, w in tab.items() if a != "result"] if o is not None else []
        if "result" in tab:
            items.append(("result", r.var(st, "r"), tab["result"]))
        for a, v, want in items:
            if v is None:
                continue
            for x in opts(v):
                if x is UNDEF or isinstance(x, Const):
                    continue
                out.count("results examined")
                k, ax = x.f.rows
                if k == "ord":
                    out.find("order-dependent", "%s.%s" % (c.est, a), "%s depends on the order of the training cases" % a)
                elif k == "unk":
                    out.undecided("%s.%s" % (c.est, a))
                elif want == "inv" and ax and k in ("pt", "equi"):
                    out.find("order-dependent", "%s.%s" % (c.est, a), "%s is laid out by training case (%s)" % (a, k))
                else:
                    out.count("discharged")


# ---------------------------------------------------------------- C13
def unit_str(u):
    if u is None:
        return "?"
    if u == ANYUNIT:
        return "any"
    return "*".join("%s^%s" % (a, b) for a, b in u) or "1"


def c13(R, c, out):
    tab = UNITS.get(c.est)
    if tab is None:
        return
    exp = tab(c)
    if exp is None:
        return
    r = start(R, c, out, c.script())
    for st in r.ok:
        o = obj(r, st)
        for a, want in exp.items():
            if a == "result":
                v = r.var(st, "r")
            elif a.startswith("="):
                v = r.var(st, a[1:])
            else:
                v = o.attrs.get(a) if o is not None else None
            if v is None:
                continue
            for x in opts(v):
                if x is UNDEF or isinstance(x, Const):
                    continue
                out.count("results examined")
                u = x.f.unit
                if u is None:
                    out.undecided("%s.%s" % (c.est, a))
                elif u == ANYUNIT or u == want:
                    out.count("discharged")
                else:
                    out.find("unit", "%s.%s" % (c.est, a), "%s carries unit %s, not %s" % (a, unit_str(u), unit_str(want)))
    for ev in r.ev("unit-conflict", "unit-compare"):
        out.find(ev["kind"], fnsite(ev), "%s" % {k: str(v) for k, v in ev.items() if k not in ("stack", "kind", "file", "line", "fn")}, at(ev))


# ---------------------------------------------------------------- C07
def c07(R, c, out):
    t = c.script(uses=False)
    # a second group of uses on new data whose rows alone are tracked
    for nm, call in c.uses:
        if "Xn" not in call or "valscore" in call or "fit" in call or "weightnewx" in call:
            continue
        t += "%s = %s\n" % (nm, call)
    r = start(R, c, out, t, casesyms=("m",), focus="new", hooks={"batch": c.D.m != ONE})
    names = {"%s: %s" % (c.est, call) for nm, call in c.uses if nm in USESHAPE.get(c.est, {}) and "%s = %s\n" % (nm, call) in t}
    for nm, why in crosspath(R, r, c, {"batch"}, only=names):
        out.find("depends-on-other-cases", nm, "the result for one case depends on a decision that all new cases take part in (%s)" % why)
    for st in r.ok:
        for nm, call in c.uses:
            v = r.var(st, nm)
            if v is None or nm not in USESHAPE.get(c.est, {}):
                continue
            if "batch" in deps(R, st, v):
                out.find("depends-on-other-cases", "%s: %s" % (c.est, call), "the result for one case depends on a decision that all new cases take part in")
            for x in opts(v):
                out.count("results examined")
                k, ax = x.f.rows
                if k == "pt" and ax:
                    out.count("discharged")
                elif k in ("inv", "equi", "ord"):
                    out.find("depends-on-other-cases", "%s: %s" % (c.est, call), "the result for one case depends on the other new cases (%s)" % k)
                elif k == "none":
                    out.undecided("%s: %s carries no case" % (c.est, call))
                else:
                    out.undecided("%s: %s" % (c.est, call))


# ---------------------------------------------------------------- C10
from .norm import Norm


def term(v):
    return getattr(getattr(v, "f", None), "term", None)


def c10(R, c, out):
    two = c.two
    t = c.script(uses=False)
    names = {nm: call for nm, call in c.uses}
    if "yp" in names:
        t += "yp = e.predict(X)\nyr = y - e.fitted_\n" if c.est != "sudire" else "yp = e.predict(X)\n"
    if "tn" in names:
        t += "tp = e.transform(X)\n"
        if c.est == "ppdire":
            t += "ts = ((X - e.x_loc_) / e.x_sca_) @ e.x_Rweights_\n"
    r = start(R, c, out, t)
    N = Norm()

    def judge(a, s, b, q, msg):
        out.count("agreements examined")
        res = N.compare(term(s), term(q))
        if res is True:
            out.count("discharged")
        elif res is None:
            out.undecided("%s: %s = %s" % (c.est, a, b))
        else:
            out.find("disagree", "%s: %s vs %s" % (c.est, a, b), "%s: the code computes %s and %s" % (msg, show(term(s), 4), show(term(q), 4)))
    for st in r.ok:
        o = obj(r, st)
        g = o.attrs.get
        v = lambda k: r.var(st, k)
        if "yp" in names and c.est != "sudire" and g("fitted_") is not None:
            judge("fitted_", g("fitted_"), "predict(X)", v("yp"), "fitted values are not the predictions for the training data")
            judge("residuals_", g("residuals_"), "y - fitted_", v("yr"), "residuals are not response minus fitted values")
        if "tn" in names:
            if c.est in ("sprm", "sudire"):
                judge("x_scores_", g("x_scores_"), "transform(X)", v("tp"), "scores are not the transformed training data")
            elif c.est == "ppdire" and c.opts.get("whiten_data") != "True" and c.opts.get("compression") != "True":
                judge("transform(X)", v("tp"), "scaled X times rotations", v("ts"), "transform does not apply the fitted scaling and rotation")


c10.applies = lambda c: c.est in ("sprm", "snipls", "rm", "ppdire", "sudire") and c.xc == "nd"


# ---------------------------------------------------------------- C04
def c04_store(R, c, out):
    """every option is stored and listed as given, set and cloned alike; unknown names are refused"""
    cls = R.lookup("direpack." + c.est)
    pars = probe.params_of(R.I, cls)
    if not pars and c.est != "Wrapper":
        out.undecided("%s has no constructor options" % c.est)
    base = c.ctor[len(c.est) + 1:-1]
    given = {x.split("=")[0].strip(): x for x in base.split(",") if "=" in x}
    for p in pars:
        others = ", ".join(v for k, v in given.items() if k != p)
        tok = Opaque("option:" + p)
        t = ("e = %s(%s%s=tok)\ng = e.get_params()\nv1 = g['%s']\nv2 = e.%s\n" % (c.est, others + ", " if others else "", p, p, p),
             "e = %s\ns = e.set_params(%s=tok)\nv1 = e.get_params()['%s']\nv2 = e.%s\nv3 = s.%s\n" % (c.ctor, p, p, p, p))
        hazy = set()
        for how, text in zip(("constructor", "set_params"), t):
            cc = _with(c, {"tok": tok})
            r = start(R, cc, out, text)
            if not r.ok:
                e = r.raises[0] if r.raises else None
                out.find("option-lost", "%s.%s" % (c.est, p), "option %s given to the %s cannot be read back: %s" % (p, how, e.describe() if e else ""), e.where if e else "")
            for st in r.ok:
                for nm in ("v1", "v2", "v3"):
                    v = r.var(st, nm)
                    if v is None:
                        continue
                    out.count("options followed")
                    if isinstance(v, Opaque) and v.tag == tok.tag:
                        out.count("discharged")
                    elif isinstance(v, (TopT,)):
                        out.undecided("%s.%s" % (c.est, p))
                        hazy.add(how)
                    else:
                        out.find("option-altered", "%s.%s" % (c.est, p), "option %s given to the %s is stored or reported as something else (%s)" % (p, how, v))
        for how, text in zip(("constructor", "set_params"), t):
            # something is done with the value: try the documented ones
            for val in c.values.get(p, []) + ["1", "3"] if how in hazy else []:
                r = c.run(R, "tok = %s\n" % val + text)
                for st in r.ok:
                    for nm in ("v1", "v2", "v3"):
                        v = r.var(st, nm)
                        out.count("options followed")
                        a, b = pykey(v), pykey(r.var(st, "tok"))
                        if a is not None and b is not None and a != b:
                            out.find("option-altered", "%s.%s" % (c.est, p), "option %s=%s given to the %s is stored or reported as %s" % (p, val, how, a))
    r = start(R, c, out, "e = %s\ng = e.get_params()\n" % c.ctor)
    for st in r.ok:
        g = r.var(st, "g")
        d = st.get(g.oid).d if isinstance(g, Ref) and isinstance(st.get(g.oid), DictObj) else None
        if d is None:
            out.undecided("%s.get_params" % c.est)
            continue
        have = {k for k in d}
        for p in pars:
            out.count("options followed")
            if p in have:
                out.count("discharged")
            else:
                out.find("option-not-listed", "%s.%s" % (c.est, p), "option %s is missing from the parameter listing" % p)
    r = c.run(R, "e = %s\nr = e.set_params(no_such_option=1)\n" % c.ctor)
    out.count("refusals examined")
    if r.ok:
        out.find("unknown-option-accepted", "%s.set_params" % c.est, "set_params accepts an option that does not exist")
    elif any(e.kind == "error" for e in r.raises):
        out.find("unknown-option-fails", "%s.set_params" % c.est, r.raises[0].describe(), r.raises[0].where)


def _with(c, extra):
    import copy as _c
    d = _c.copy(c)
    d.extra = dict(c.extra, **{k: v for k, v in extra.items()})
    return d


def c04_effect(R, c, out):
    """an option changed through set_params leaves nothing of the value it had before"""
    k, w, v = c.change
    t = "e2 = %s\ne = %s\ninitdiff(e, e2, 'old')\ns = e.set_params(%s=%s)\nr = %s\n" % (c.ctor, c.old, k, v, c.fit)
    for nm, call in c.uses:
        t += "%s = %s\n" % (nm, call)
    r = start(R, c, out, t, hooks={"watch": ("old",)})
    for st in r.ok:
        for nm, x in results(R, r, st, c):
            out.count("results examined")
            if "old" in deps(R, st, x):
                out.find("old-value-used", "%s option %s: %s" % (c.est, k, nm), "%s still depends on the value %s had before set_params" % (nm, k))
    for ev in r.ev("watched"):
        if not any(f in ev["stack"] for f in ("__init__", "set_params", "get_params", "initdiff")):
            out.find("old-value-used", fnsite(ev) + " option " + k, "a branch still depends on the value %s had before set_params" % k, at(ev))


c04_store.applies = lambda c: c.group == "option"
c04_effect.applies = lambda c: c.group == "change"


# ---------------------------------------------------------------- C24
def effect_run(R, c, value, hooks=None):
    if "OPTION" in c.fit:
        text = "e = %s\nr = %s\n" % (c.ctor, c.fit.replace("OPTION", value))
    else:
        o = dict(c.base, **{c.opt: value})
        text = "e = %s(%s)\nr = %s\n" % (c.est, ", ".join("%s=%s" % x for x in o.items()), c.fit)
    for nm, call in c.uses:
        text += "%s = %s\n" % (nm, call)
    return c.run(R, text, hooks=hooks)


def wanted(R, r, c, name):
    """the values of one result on every path that completes"""
    for st in r.ok:
        o = obj(r, st)
        if name.endswith("_"):
            v = o.attrs.get(name) if o is not None else None
        elif name == "r":
            v = r.var(st, "r")
        else:
            v = next((r.var(st, nm) for nm, call in c.uses if name in call), None)
        yield st, v


OPAQUE = ("u", "phi", "cond", "argmin")


def same_term(a, b):
    """True: the same value; False: computed differently; None: not known"""
    if a is None or b is None:
        return None
    if a is b:
        return None if opaque(a, set()) else True
    return None if structure(a) == structure(b) else False


def opaque(t, seen):
    if not hasattr(t, "op") or t in seen:
        return False
    seen.add(t)
    return t.op in OPAQUE or any(opaque(x, seen) for x in t.args)


def structure(t):
    """a list that is equal for terms that differ in the names of their opaque parts only"""
    out, num, stack = [], {}, [t]
    while stack:
        x = stack.pop()
        if not hasattr(x, "op"):
            out.append(re.sub(r"\b[k?i]\d+", "k", repr(x)))
            continue
        if x in num:
            out.append(num[x])
            continue
        num[x] = len(num)
        out.append(x.op)
        if x.op not in OPAQUE:
            stack.extend(x.args)
    return out


def c24(R, c, out):
    """the results an option governs depend on it"""
    out.count("options examined")
    runs, calls = {}, {}
    what = c.opt.split("(")[0] if c.est == "function" else "%s option %s" % (c.est, c.opt.rstrip("="))

    def run(value, **k):
        r = effect_run(R, c, value, **k)
        out.count("scenarios")
        out.count("paths", len(r.ok) + len(r.raises))
        return r

    def compare(v, w, name):
        ts = []
        for value in (v, w):
            if value not in runs:
                R.I.extcalls.clear()
                runs[value] = run(value)
                calls[value] = frozenset(R.I.extcalls)
            r = runs[value]
            if r.budget or not r.ok:
                return None
            vs = [x for _, x in wanted(R, r, c, name) if x is not None and x is not UNDEF]
            ts.append([term(x) for x in vs])
        a, b = ts
        if not a or not b:
            return None if not a and not b else False
        got = [[same_term(x, y) for y in b] for x in a]
        if all(True in g for g in got) and all(any(g[j] is True for g in got) for j in range(len(b))):
            return True
        if any(all(x is False for x in g) for g in got):
            return False
        return None

    followed = {}

    def follows(v, name, samecalls=False):
        """does the result carry the label of the option?"""
        if v not in followed:
            followed[v] = run("mark(%s, 'opt')" % v, hooks={"flow": ("opt",)})
        r = followed[v]
        if r.budget or not r.ok:
            return None
        vs = [(st, x) for st, x in wanted(R, r, c, name)]
        if not any(x is not None for _, x in vs):
            return None
        if any(x is None for _, x in vs) or any("opt" in deps(R, st, x) for st, x in vs):
            return True
        if not all(ev["callee"] and samecalls for ev in r.ev("dispatch")):
            return None
        # decisions taken on the option, both ways: do they lead to the same value?
        alt = []
        for st, x in vs:
            ds = [k for k, (val, d) in st.facts.items() if "opt" in d]
            if ds:
                alt.append(x)
        if not alt:
            return False
        for x in alt:
            for y in alt:
                if x is y or same_value(x, y):
                    continue
                if same_term(term(x), term(y)) is not True:
                    return None if same_term(term(x), term(y)) is None else True
        return False

    cut = {"probp1": 0, "probp2": 1, "probp3": 2}.get(c.opt.rstrip("="))
    if cut is not None:
        seen = {}

        def standin(I, f, loc, node):
            x, cuts = weight_args(f, loc)
            if cut < len(cuts):
                k = I.where(node)
                seen[k] = seen.get(k, True) and (isinstance(cuts[cut], (type(Top), Opaque)) or "opt" in X.deep_deps(I, cuts[cut]))
            return weight_value(I, f, x, cuts)
        r = run("mark(%s, 'opt')" % c.vals[0], hooks={"flow": ("opt",), "standin": {k: standin for k in ("Hampel", "Huber", "Fair")}})
        for where, good in sorted(seen.items()):
            out.count("weight calls examined")
            if good:
                out.count("discharged")
            else:
                out.find("option-without-effect", "%s: weights at %s" % (what, where.split(":")[0] + " " + where.split(" ")[-1]), "the cut-off number %d of a weight function does not depend on it" % (cut + 1), where)
    for name in c.want:
        for i, v in enumerate(c.vals):
            for w in c.vals[:i] if c.how == "values" else c.vals[1:2] if i == 0 else ():
                out.count("results examined")
                res = None
                if c.how == "label":
                    res = follows(v, name)
                    if not res:
                        d = compare(v, w, name)
                        res = True if d is False else False if d is True else res
                else:
                    d = compare(v, w, name)
                    res = None if d is None else not d
                    if res is None:
                        # the value may be used as a name: do both reach the same functions?
                        eq = v in calls and w in calls and calls[v] == calls[w]
                        if follows(v, name, eq) is False and follows(w, name, eq) is False:
                            res = False
                if res:
                    out.count("discharged")
                elif res is None:
                    out.undecided("%s: %s" % (what, name))
                else:
                    out.find("option-without-effect", "%s: %s" % (what, name), "%s is the same for %s and %s" % (name, v, w))


# ---------------------------------------------------------------- C05
def c05_bad(R, c, out):
    """an impossible request ends in an error on every path"""
    r = c.run(R, c.script())
    out.count("scenarios")
    out.count("requests examined")
    if r.budget:
        out.undecided("step budget")
        return
    out.count("paths", len(r.ok) + len(r.raises))
    if r.ok:
        out.find("answered", "%s: %s" % (c.est, c.why), "an impossible request (%s) is answered instead of refused: %s; %s%s" % (c.why, c.ctor, c.fit, "".join("; " + u for _, u in c.uses)))
    elif r.raises:
        out.count("discharged")


def c05_edge(R, c, out):
    """a valid request at the edge of the range is answered on some path"""
    r = c.run(R, c.script())
    out.count("scenarios")
    out.count("requests examined")
    if r.budget:
        out.undecided("step budget")
        return
    out.count("paths", len(r.ok) + len(r.raises))
    for e in errors(r):
        out.find("fails-inside", e.fnsite(), e.describe(), e.where)
    if r.ok:
        out.count("discharged")
    elif r.raises and not errors(r):
        e = r.raises[0]
        out.find("refused", "%s: %s" % (c.est, c.why), "a valid request (%s) is refused on every path: %s" % (c.why, e.describe()), e.where)


def c05_kept(R, c, out):
    """columns without spread are left out of an sprm fit: there must be enough others"""
    r = start(R, c, out, c.script(uses=False), hooks={"nomerge": True})
    for st in r.ok:
        o = obj(r, st)
        kept = o.attrs.get("non_zero_scale_vars_")
        k = kept.shape[0] if isinstance(kept, Arr) and kept.shape else None
        out.count("requests examined")
        if k is None:
            out.undecided("columns kept")
            continue
        s = st.cmp(c.D.h, k)
        if 1 not in s:
            out.count("discharged")
        elif s == {1}:
            out.find("answered", "sprm: more components than columns with spread", "a fit with more components than columns with spread is answered instead of refused")
        else:
            out.undecided("columns kept")


c05_kept.applies = lambda c: c.group == "sprm" and "n_components" in c.opts and c.xc == "nd" and c.yc in ("1d", "col") and c.opts.get("start_X_init", "'pcapp'") != "'pcapp'"
c05_bad.applies = lambda c: c.group == "bad"
c05_edge.applies = lambda c: c.group == "edge"


# ---------------------------------------------------------------- C06
def widths(d):
    z = Poly.sym("z")
    yield "more columns", d.p + 1 + z
    yield "one column too many", d.p + 1
    yield "one column too few", d.p - 1
    if d.p - 1 != ONE:
        yield "a single column", ONE
    yield "the right columns", d.p


def c06(R, c, out):
    """new data of another width are refused on every path, of the right width accepted"""
    d = c.D
    fitted = start(R, c, out, c.script(uses=False))
    data = []
    for m in (d.m, ONE):
        for nm, w in widths(d):
            for xc in ("nd", "frame"):
                data.append(("%s with %s, %s" % (xc, nm, "one case" if m == ONE else "many cases"), frame("Xn", (m, w), xc, unit=UX, rows=NOROWS), m, w == d.p))
    if c.est in ("sprm", "snipls", "rm", "VersatileScaler", "Wrapper"):
        for nm, w in widths(d):
            data.append(("vector with %s" % nm, arr("Xn", (w,), unit=UX, rows=NOROWS), ONE, w == d.p))
    for me in c.methods:
        for nm, Xn, m, right in data:
            if me in ("valscore", "inverse_transform") and nm.startswith("vector"):
                continue
            call = "u = e.%s(Xn%s)\n" % (me, ", yn, 'normal'" if me == "valscore" else "")
            out.count("acceptances examined" if right else "refusals examined")
            fine = True
            for st in fitted.ok:
                r = R.resume(st, call, {"Xn": Xn, "yn": resp("yn", m, "col", unit=UY, rows=NOROWS)})
                if r.budget:
                    fine = False
                    out.undecided("step budget")
                elif right:
                    bad = errors(r) or ([] if r.ok else r.raises)
                    for e in bad:
                        fine = False
                        out.find("refused", "%s.%s" % (c.est, me), "new data of the right width (%s) are not accepted: %s" % (nm, e.describe()), e.where)
                elif r.ok:
                    fine = False
                    out.find("answered", "%s.%s" % (c.est, me), "new data of the wrong width (%s) are answered instead of refused" % nm)
            if fine:
                out.count("discharged")


c06.applies = lambda c: c.group == "newx"


# ---------------------------------------------------------------- C11
GUARD = {"store", "where", "max", "maximum", "phi", "clip", "add", "fmax", "replace", "union"}
LAYOUT = {"tile0", "row", "reshape", "ravel", "T", "idx0", "array", "astype", "full"}


def strip(t):
    while isinstance(t, Term) and t.op in LAYOUT and t.args and isinstance(t.args[0], Term):
        t = t.args[0]
    return t


def c11_form(R, c, out):
    """scaled data are (data - location) / scale, inverse scaling undoes that"""
    w = c.est == "VersatileScaler"
    t = c.script(uses=False)
    t += "tn = e.transform(Xn)\npn = e.predict(Xn)\nref = (Xn - e.col_loc_) / e.col_sca_\niv = e.inverse_transform(tn)\nl1 = e.col_loc_\nl2 = e.center_\ns1 = e.col_sca_\ns2 = e.scale_\n"
    t += "ft = e.fit_transform(X)\nrf = (X - e.col_loc_) / e.col_sca_\niz = e.inverse_transform()\niy = e.inverse_transform(ft)\n"
    divs = {}
    r = start(R, c, out, t, hooks={"divs": divs})
    N = Norm(flat=True)
    J = [("tn", "ref", "transform does not subtract the stored location and divide by the stored scale"),
         ("pn", "ref", "predict does not subtract the stored location and divide by the stored scale"),
         ("iv", "Xn", "inverse_transform does not return the original new data"), ("ft", "rf", "fit_transform does not subtract the stored location and divide by the stored scale"),
         ("iz", "X", "inverse_transform without data does not return the training data"), ("iy", "X", "inverse_transform does not return the original data"),
         ("l1", "l2", "col_loc_ and center_ differ"), ("s1", "s2", "col_sca_ and scale_ differ")]
    for st in r.ok:
        for a, b, msg in J:
            out.count("identities examined")
            res = N.compare(term(r.var(st, a)), term(r.var(st, b)))
            if res is True:
                out.count("discharged")
            elif res is None:
                out.undecided("%s: %s" % (c.ctor, msg))
            else:
                out.find("not-" + a, "VersatileScaler: " + msg, "%s: the code computes %s, expected %s" % (msg, show(term(r.var(st, a)), 6), show(term(r.var(st, b)), 6)))
        if c.opts.get("scale") == "'None'":
            continue
        sca = strip(term(r.var(st, "s1")))
        raw = isinstance(sca, Term) and sca.op not in GUARD
        for ev in r.ev("div"):
            d = strip(divs.get(ev["tid"]))
            if d is None or "<scenario>" in ev["file"]:
                continue
            out.count("divisions examined")
            if raw and d is sca:
                out.find("divides-by-raw-scale", fnsite(ev), "data are divided by the scale estimate without replacing zero scales: %s" % show(sca, 4), at(ev))


c11_form.applies = lambda c: c.est == "VersatileScaler"


def c11_const(R, c, out):
    """constant data are only centred"""
    v = 3.0
    mk = lambda nm, n: (lambda R, d: frame(nm, (getattr(d, n), d.p), c.xc, lo=v, hi=v))
    cc = _with(c, {"X": mk("X", "n"), "Xn": mk("Xn", "m")})
    t = c.script(uses=False) + "tn = e.transform(Xn)\npn = e.predict(Xn)\nft = e.fit_transform(X)\niv = e.inverse_transform(tn)\n"
    r = start(R, cc, out, t)
    for ev in r.ev("div-zero"):
        out.find("divides-by-zero", fnsite(ev), "a constant column is divided by zero", at(ev))
    for st in r.ok:
        for nm in ("tn", "pn", "ft", "iv"):
            x = r.var(st, nm)
            out.count("results examined")
            for y in opts(x):
                if getattr(y, "lo", None) is not None and getattr(y, "hi", None) is not None:
                    out.count("discharged")
                else:
                    out.undecided("%s %s" % (c.ctor, nm))


c11_const.applies = lambda c: c.est == "VersatileScaler"


# ---------------------------------------------------------------- C15
from . import piece


def c15_fun(R, c, out):
    """range of each weight function in every region the cut-offs define"""
    name = c.est
    nargs = "x, a, b, r" if name == "Hampel" else "x, a"
    r = start(R, c, out, "w = f(%s)\n" % nargs, hooks={"nomerge": True})
    for e in errors(r):
        out.undecided("%s: %s" % (name, e.describe()))
    for st in r.ok:
        t = term(r.var(st, "w"))
        for reg, x, a, b, rr in piece.regions():
            E = piece.Eval({"x": x, "a": a, "b": b, "r": rr})
            if infeasible(E, st):
                continue
            out.count("regions examined")
            why = None
            try:
                v = E.v(t)
                lo = "inf" if v is piece.INF else v.sgn()
                up = None if v is piece.INF else piece.sub(piece.num(1), v).sgn()
                if v is piece.INF:
                    why = "is infinite"
                elif lo is None or up is None:
                    out.undecided("%s for %s: %s" % (name, reg, v))
                    continue
                elif lo < 0:
                    why = "is negative (%s)" % v
                elif up < 0:
                    why = "exceeds one (%s)" % v
                elif name != "Fair" and (reg.startswith("x = 0") or reg.startswith("0 < x < a") or reg.startswith("x > 0 (a")) and up != 0:
                    why = "is %s instead of 1 below the first cut-off" % v
                elif name == "Hampel" and reg == "x > r" and lo != 0:
                    why = "is %s instead of 0 beyond the last cut-off" % v
                elif name == "Fair" and reg.startswith("x = 0") and up != 0:
                    why = "is %s instead of 1 at distance zero" % v
            except piece.Missing:
                why = "is not a number"
            except piece.Unknown:
                out.undecided("%s for %s" % (name, reg))
                continue
            if why:
                out.find("weight-range", "%s: %s" % (name, reg), "%s weight %s for %s" % (name, why, reg))
            else:
                out.count("discharged")


c15_fun.applies = lambda c: c.group == "weight"


def infeasible(E, st):
    """a fact of this path contradicts the region"""
    for t, (v, _) in st.facts.items():
        if not isinstance(t, Term) or not isinstance(v, bool):
            continue
        try:
            if t.op == "any":
                if v is False and E.sel(t.args[0]):
                    return True
            elif t.op == "all":
                if v is True and not E.sel(t.args[0]):
                    return True
            else:
                x = E.v(t)
                if isinstance(x, bool) and x != v:
                    return True
        except (piece.Unknown, piece.Missing):
            continue
    return False


def weight_args(f, loc):
    """distances and cut-offs handed to a weight function"""
    x = loc.get("x")
    cuts = [loc.get(k) for k in ("probct", "hampelb", "hampelr")] if f.name == "Hampel" else [loc.get("probct")]
    if None in cuts or x is None:
        ks = [k for k in loc if k != "args"]
        x, cuts = loc[ks[0]], [loc[k] for k in ks[1:]]
    return x, cuts


def weight_value(I, f, x, cuts):
    a = X.as_arr(I, x)
    if a is None:
        return X.unknown(I, x, *cuts)
    d = a.f.deps
    for v in cuts:
        d = d | v.f.deps
    return Arr(a.shape, lo=0, hi=1, f=F(DIMLESS, a.f.rows, d, T("weight_" + f.name, X.tt(x), *[X.tt(v) for v in cuts])))


def c15_use(R, c, out):
    """reported case weights stay within [0, 1]; the cut-offs handed to a weight function are quantiles of one distribution in increasing order"""
    calls = []

    def standin(I, f, loc, node):
        x, cuts = weight_args(f, loc)
        calls.append((f.name, I.where(node), [term(v) for v in cuts], [X.num_iv(v) for v in cuts]))
        return weight_value(I, f, x, cuts)
    t = c.script(uses=False)
    if c.est == "sprm":
        t += "wn = e.weightnewx(Xn)\n"
    r = start(R, c, out, t, hooks={"standin": {k: standin for k in ("Hampel", "Huber", "Fair")}})
    seen = set()
    for name, where, cuts, ivs in calls:
        sig = (name, where, tuple(getattr(q, "id", None) for q in cuts))
        if sig in seen:
            continue
        seen.add(sig)
        out.count("weight calls examined")
        site = where.split(":")[0] + " " + where.split(" ")[-1]
        qs = [quantile(q) for q in cuts]
        if any(q is None for q in qs):
            out.undecided("cut-off of %s at %s" % (name, where))
            continue
        for i in range(1, len(qs)):
            if qs[i][0] != qs[0][0]:
                out.find("cut-offs-mixed", site, "%s is called with cut-offs of different distributions: %s and %s" % (name, qs[0][0], qs[i][0]), where)
            elif qs[i][1] is not None and qs[i - 1][1] is not None and not qs[i - 1][1] < qs[i][1]:
                out.find("cut-offs-order", site, "%s is called with cut-offs out of order" % name, where)
            else:
                out.count("discharged")
    for st in r.ok:
        o = obj(r, st)
        items = [(a, o.attrs.get(a)) for a in ("caseweights_", "x_caseweights_", "y_caseweights_")]
        if c.est == "sprm":
            items.append(("weightnewx", r.var(st, "wn")))
        for a, v in items:
            if v is None:
                continue
            for x in opts(v):
                out.count("results examined")
                lo, hi = X.num_iv(x)
                if lo is not None and hi is not None and 0 <= lo and hi <= 1:
                    out.count("discharged")
                elif lo is None:
                    out.undecided("%s.%s" % (c.est, a))
                else:
                    out.find("weight-range", "%s.%s" % (c.est, a), "%s is only known to lie in [%s, %s]" % (a, lo, "inf" if hi is None else hi))


def quantile(t):
    """(distribution, probability) of a quantile term"""
    t = strip(t)
    if not isinstance(t, Term) or not t.op.startswith("ppf_"):
        return None
    try:
        p = float(t.args[0].args[0]) if t.args[0].op == "c" else None
    except (ValueError, IndexError, AttributeError):
        p = None
    return (t.op,) + tuple(show(a, 3) for a in t.args[1:]), p


c15_use.applies = lambda c: c.est in ("sprm", "rm")


def c11_cols(R, c, out):
    """coordinate-wise estimators and the scaling itself treat every column on its own"""
    col = ("pt", frozenset([1]))
    cc = _with(c, {"X": lambda R, d: frame("X", (d.n, d.p), c.xc, rows=col), "Xn": lambda R, d: frame("Xn", (d.m, d.p), c.xc, unit=UX, rows=col)})
    multi = c.opts["center"] in ("'l1median'", "'kstepLTS'")
    r = start(R, cc, out, c.script(uses=False) + "tn = e.transform(Xn)\niv = e.inverse_transform(tn)\n", casesyms=("d",))
    for st in r.ok:
        o = obj(r, st)
        items = [("col_sca_", o.attrs.get("col_sca_"))]
        if not multi:
            items += [("col_loc_", o.attrs.get("col_loc_"))]
            if c.opts["scale"] != "'scaleTau2'":
                items += [("transform", r.var(st, "tn")), ("inverse_transform", r.var(st, "iv"))]
        for nm, v in items:
            for x in opts(v):
                if x is UNDEF:
                    continue
                out.count("columns examined")
                k, ax = x.f.rows
                if k == "none" or k == "pt" and ax:
                    out.count("discharged")
                elif k in ("inv", "equi", "ord"):
                    e = c.opts["scale"] if nm == "col_sca_" else c.opts["center"] if nm == "col_loc_" else ""
                    out.find("columns-mixed", "VersatileScaler.%s %s" % (nm, e), "%s of one column depends on the other columns (%s)" % (nm, k))
                else:
                    out.undecided("VersatileScaler.%s %s %s" % (nm, c.opts["center"], c.opts["scale"]))


c11_cols.applies = lambda c: c.group == "column"


# ---------------------------------------------------------------- C18
def c18_code(R, c, out):
    """every call and store written in one module"""
    from . import effects
    found, calls, resolved, stores = effects.scan(R.prog, c.module)
    out.count("modules examined")
    out.count("calls examined", calls)
    out.count("calls resolved outside the package", resolved)
    out.count("stores examined", stores)
    for kind, construct, what, where in found:
        out.find("effect", construct, "%s: %s" % (kind, what), where)


def c18_run(R, c, out):
    """every library function reached by an abstract run, however it was named"""
    from . import effects
    R.I.extcalls.clear()
    r = start(R, c, out, c.script())
    may_draw = "differential_evolution" in c.key or c.est == "estimate_structural_dim"
    for path, file, line, fn in sorted(R.I.extcalls, key=str):
        p = effects.canon(path)
        out.count("library calls reached")
        k = effects.effect_of(p)
        if k:
            if k in RESTORABLE and (file, line) in effects.guarded(R.prog):
                continue
            out.find("effect", "%s (%s) %s" % (file, fn, p), "%s: %s" % (k, p), "%s:%s" % (file, line))
    if not may_draw:
        for ev in r.ev("rng"):
            out.find("draws-random-numbers", fnsite(ev), "the global random state is advanced (%s)" % ev.get("name"), at(ev))


RESTORABLE = ("warning filters", "plot settings", "numerical settings", "random state")

#!/usr/bin/env python3
"""check.py <property> [--thorough]

Decides one property of the package in /repo by abstract interpretation of its
source.  Exit 0: no violation found.  Exit 1: a VIOLATION line.  Exit 2: the
analysis could not be carried out (vanished anchor, too little decided)."""
import collections
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from dpa import catalog, engine, rules, plan  # noqa: E402
from dpa.loader import AnalysisError  # noqa: E402


def known():
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding: "):
                out.append(json.loads(line[9:]))
    return out


def matches(k, pid, f):
    return k["property"] == pid and k["rule"] == f.rule and k["construct"] == f.construct and k.get("scenario", "") in f.case


def main(argv):
    if argv[1] == "--setup":
        print("nothing to build: the checks are plain Python over the sources in %s" % engine.REPO)
        return 0
    pid = argv[1]
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = plan.PLAN[pid]
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    try:
        prog = engine.runner().prog
        jobs = P.jobs(tier)
        outs = engine.run_all(jobs)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 2
    n, und, errs, funcs, unm = collections.Counter(), collections.Counter(), collections.Counter(), set(), set()
    found = collections.OrderedDict()
    for o in outs:
        n.update(o.n)
        und.update(o.undec)
        funcs.update(o.funcs)
        unm.update(map(str, o.unm))
        if o.err:
            errs[o.err.strip().splitlines()[-1]] += 1
        for f in o.finds:
            found.setdefault(f.key(), []).append(f)
    kn = known()
    viol, kfs = [], collections.OrderedDict()
    for key, fs in found.items():
        rest = []
        for f in fs:
            k = next((k for k in kn if matches(k, pid, f)), None)
            if k:
                kfs[json.dumps(k, sort_keys=True)] = k
            else:
                rest.append(f)
        if rest:
            viol.append((key, rest))
    for k in kfs.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rep = os.path.join(ev, "%s.replay.json" % pid)
    if viol:
        with open(rep, "w") as fh:
            json.dump({"property": pid, "tier": tier, "violations": [dict(fs[0].d(), occurrences=len(fs)) for _, fs in viol]}, fh, indent=1)
    wall = time.time() - t0
    cov = {
        "explanation": P.text + " Undecided obligations (the analysis could derive neither compliance nor a violation) are counted, not reported.",
        "rules": P.rulenames(),
        "scenarios_planned": len(jobs),
        "counts": dict(sorted(n.items())),
        "undecided": sum(und.values()),
        "undecided_constructs": dict(und.most_common(12)),
        "scenarios_not_analysable": sum(errs.values()),
        "errors": dict(errs.most_common(5)),
        "functions_analysed": len(funcs),
        "functions": sorted(funcs)[:200],
        "program": {"modules": len(prog.modules), "functions": prog.nfunc, "statements": prog.nstmt, "calls": prog.ncall},
        "library_calls_not_modelled": sorted(unm)[:20],
        "samples": [j[1].key for j in jobs[:: max(1, len(jobs) // 3)][:3]],
    }
    with open(os.path.join(ev, "%s.json" % pid), "w") as fh:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(wall, 2), "violations": len(viol),
                   "known_findings": [k["what"] for k in kfs.values()],
                   "assumptions": ["the library models in dpa/ext.py and dpa/extfn.py describe numpy, scipy, pandas, scikit-learn, statsmodels and dcor correctly", "data are finite, dense and numeric; the layouts of dpa/catalog.py (DV) stand for the data sets of that form"]},
                  fh, indent=1)
    for (rule, construct), fs in viol:
        f = fs[0]
        print("%s [%s] %s%s (%d scenario%s, e.g. %s)" % (pid, rule, construct, ": " + f.msg + (" at " + f.where if f.where else ""), len(fs), "" if len(fs) == 1 else "s", f.case))
    print("%s: %d scenarios, %s, %d undecided, %d not analysable, %.1f s" % (pid, len(jobs), ", ".join("%s %d" % kv for kv in sorted(n.items())), sum(und.values()), sum(errs.values()), wall))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    for e, k in errs.most_common(3):
        print("note: not analysable in %d scenarios: %s" % (k, e))
    low = [k for k, v in P.floor(tier).items() if n[k] < v]
    if low or sum(errs.values()) > len(jobs) // 2:
        print("ANALYSIS-ERROR property=%s too little was decided (%s)" % (pid, ", ".join("%s %d" % (k, n[k]) for k in low) or "errors"))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))

"""Parallel execution of scenarios; collection of findings, counts and evidence."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from .scen import Runner, Program, AnalysisError

REPO = os.environ.get("DPA_REPO", "/repo")
_R = {}


def runner():
    if "r" not in _R:
        _R["r"] = Runner(Program(REPO))
    return _R["r"]


class Find:
    """a violation: rule, construct (file/function/attribute, never a line) and text"""

    def __init__(self, rule, construct, msg, where="", case=""):
        self.rule, self.construct, self.msg, self.where, self.case = rule, construct, msg, where, case

    def key(self):
        return (self.rule, self.construct)

    def d(self):
        return dict(rule=self.rule, construct=self.construct, message=self.msg, where=self.where, scenario=self.case)


class Out:
    """result of one scenario under one rule set"""

    def __init__(self, case):
        self.case = case
        self.finds = []
        self.n = {}
        self.undec = []
        self.sample = None

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

    def find(self, rule, construct, msg, where=""):
        self.finds.append(Find(rule, construct, msg, where, self.case))

    def undecided(self, what):
        self.undec.append(what)


def _idx(i):
    return _work(_R["jobs"][i])


def _work(a):
    fn, item = a
    t = time.time()
    R = runner()
    out = Out(item.key)
    try:
        fn(R, item, out)
        out.err = None
    except AnalysisError as e:
        out.err = "AnalysisError: %s" % e
    except Exception:
        out.err = traceback.format_exc()
    out.t = time.time() - t
    out.unm = sorted(R.I.unmodelled) if R.I.unmodelled else []
    out.funcs = sorted(R.I.called)
    return out


def run_all(jobs, nproc=None):
    """jobs: list of (rule function, case)"""
    runner()
    nproc = nproc or min(8, os.cpu_count() or 1)
    if len(jobs) < 3 or nproc == 1:
        return [_work(j) for j in jobs]
    _R["jobs"] = jobs
    ctx = mp.get_context("fork")
    with ctx.Pool(nproc) as pool:
        return pool.map(_idx, range(len(jobs)), chunksize=1)

"""Running property analyses over scenarios and collecting their verdicts."""
import collections
import json
import multiprocessing
import os
import time
import traceback

from .engine import Engine, Program, Client, Budget, AnalysisError


class Finding:
    def __init__(self, key, where, func, message, run=""):
        self.key, self.where, self.func, self.message, self.run = key, where, func, message, run

    def dump(self):
        return dict(key=self.key, where=self.where, function=self.func, message=self.message, configuration=self.run)


class Prop(Client):
    """A property analysis: an event client plus the scenarios it is run on."""
    id = None
    title = ""
    rule = ""
    technique = ""

    def __init__(self):
        self.findings = []
        self.obl = collections.Counter()
        self.sites = set()
        self.run_name = ""

    # ---- to override
    def runs(self):
        return []

    def setup(self, E, run):
        pass

    def finish(self, E, run, results):
        pass

    def whole(self, prog):
        """Analyses that look at the program as a whole."""

    # ---- reporting
    def obligation(self, what, E=None, node=None, n=1):
        self.obl[what] += n
        if E is not None and node is not None:
            self.sites.add((what,) + tuple(E.where(node)))

    def report(self, E, node, rule, message, func=None, detail=""):
        where, fn = E.where(node) if E is not None and node is not None else ("", func or "")
        if func is not None:
            fn = func
        self.report_at(where, fn, rule, message, detail)

    def report_at(self, where, fn, rule, message, detail=""):
        key = "%s:%s:%s%s" % (self.id, fn, rule, (":" + detail) if detail else "")
        self.findings.append(Finding(key, where, fn, message, self.run_name))


def _one(args):
    cls, i, root = args
    p = cls()
    runs = p.runs()
    r = runs[i]
    p.run_name = r.name
    res = dict(run=r.name, findings=[], obl={}, undecided={}, fns=[], sites=[], err=None, steps=0)
    t = time.time()
    E = None
    try:
        prog = Program(root)
        E = Engine(prog, p)
        E.prop = p
        p.setup(E, r)
        out = r.build(E)
        p.finish(E, r, out)
        res["fns"] = sorted(str(f) for f in E.fns_seen)
        res["undecided"] = {str(k): v for k, v in E.undecided.items()}
        res["steps"] = E.steps
    except (Budget, AnalysisError, RecursionError) as e:
        res["err"] = "%s: %s" % (type(e).__name__, e)
    except Exception as e:      # the analyser met something it does not understand
        res["err"] = "%s: %s @ %s" % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3:-1])
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
    res["data"] = getattr(p, "data", None)
    res["findings"] = p.findings
    res["obl"] = dict(p.obl)
    res["sites"] = sorted(p.sites)
    res["wall"] = time.time() - t
    return res


def analyse(cls, root="/repo", jobs=None, only=None):
    """All scenarios of a property plus its whole-program part."""
    p = cls()
    runs = p.runs()
    idx = [i for i in range(len(runs)) if only is None or only in runs[i].name]
    touch = os.environ.get("SA_TOUCH")      # development aid: only the scenarios that reach these modules
    if touch:
        try:
            reach = json.load(open("/tmp/sa_reach.json"))
            idx = [i for i in idx if runs[i].name not in reach or set(reach[runs[i].name]) & set(touch.split(","))]
        except OSError:
            pass
    jobs = jobs or int(os.environ.get("SA_JOBS", "8"))
    args = [(cls, i, root) for i in idx]
    if jobs > 1 and len(args) > 2:
        try:
            with multiprocessing.get_context("fork").Pool(min(jobs, len(args))) as pool:
                res = pool.map(_one, args, chunksize=1)
        except OSError:
            res = [_one(a) for a in args]
    else:
        res = [_one(a) for a in args]
    w = cls()
    wr = dict(run="whole program", findings=[], obl={}, undecided={}, fns=[], sites=[], err=None, steps=0, wall=0)
    t = time.time()
    try:
        w.whole(Program(root))
    except Exception as e:
        wr["err"] = "%s: %s @ %s" % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3:-1])
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
    wr["findings"], wr["obl"], wr["sites"], wr["wall"] = w.findings, dict(w.obl), sorted(w.sites), time.time() - t
    w.combine(res, wr) if hasattr(w, "combine") else None
    res.append(wr)
    return res


def known(path):
    """Committed findings: lines 'finding: property=<id> key=<key> <text>'."""
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                d = dict(x.split("=", 1) for x in parts[1:3])
                out[(d["property"], d["key"])] = parts[3] if len(parts) > 3 else ""
    return out

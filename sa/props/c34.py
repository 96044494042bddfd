from ..solver import *
from .. import linear as LN

FIRST = {"minimize_proximal_gradient": "prox", "minimize_three_split": "prox_1", "minimize_primal_dual": "prox_1"}


class Check(SolverProp):
    id = "C34"
    technique = "value numbering of the returned point: which operator produced it on each path"
    rule = """In every result of the splitting solvers the entry x is, on every path that made an iteration, the value of a call of the
    proximal operator of the first non-smooth term, unchanged since that call (paths without an iteration may return the start)."""

    def runs(self):
        out = []
        for r in tested_runs() + tested_runs(callback={"callback": NONE}):
            if r.name.split("[")[0] in FIRST:
                out.append(r)
        return out

    def setup(self, E, run):
        self.solver = run.name.split("[")[0]
        self.which = FIRST[self.solver]
        T.ARMS.clear()

    def on_result(self, E, st, node, d):
        if not E.recording:
            return
        x = d["kw"].get("x")
        if x is None:
            return
        self.obligation("the returned point comes from the proximal operator", E, node)
        t = E.term_of(st, x)
        if t is None:
            return
        for a in self.arms(t):
            self.judge(E, node, a)

    def arms(self, t, seen=None):
        """t, or the values that were merged into it."""
        seen = set() if seen is None else seen
        t = plain(t)
        if t in seen:
            return
        seen.add(t)
        while t.op == "old" and len(t.args) >= 1 and isinstance(t.args[0], T.Term):
            t = t.args[0]
        if t.op == "phi" and T.ARMS.get(t.args[0]):
            for a in sorted(T.ARMS[t.args[0]], key=lambda a: T.show(a, 4)):
                yield from self.arms(a, seen)
        else:
            yield t

    def judge(self, E, node, t):
        if t.op == "user":
            if t.args[0] == self.which:
                return
            if t.args[0] in ("prox", "prox_1", "prox_2", "grad", "mv"):
                self.report(E, node, "other-operator", "the returned point is the value of %s, not of %s" % (t.args[0], self.which), func=self.solver)
            return
        if t.op == "sym":
            if t.args[0] != "x0":
                self.report(E, node, "not-prox", "the returned point is %s" % T.show(t, 2), func=self.solver)
            return
        if t.op in ("phi", "fresh", "old", "loopvar", "unk", "load", "merged"):
            return E.note("C34: the returned point is not resolved")
        # an expression: a combination of points is not the value of the operator
        p = T.poly(t)
        v = LN.vectors(p)
        if v is not None and (len(v) > 1 or any(list(c.items()) != [((), 1)] for c in v.values())):
            self.report(E, node, "not-prox", "the returned point is %s, not the value of %s" % (T.show(t, 3)[:120], self.which), func=self.solver)
        else:
            E.note("C34: the returned point is not resolved")


def plain(t):
    """without wrappers that leave the values as they are"""
    while t.op == "poly" and len(t.args) == 1 and isinstance(t.args[0], T.Term):
        t = t.args[0]
    return t

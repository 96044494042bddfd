from ..solver import *
from .. import linear as LN


class Check(SolverProp):
    id = "C35"
    technique = "value numbering of the reported certificate against the quantity compared with tol on the same path"
    rule = """On every path on which a solver reports success, the certificate in its result is the very value that was found below tol on
    that path; for Frank-Wolfe the oracle call it was computed from is a call at the returned point."""

    def runs(self):
        return tested_runs() + tested_runs(callback={"callback": NONE})

    def setup(self, E, run):
        self.solver = run.name.split("[")[0]

    def tested(self, st):
        for t, pol in st.facts.items():
            for op, a, b in implied(t, pol):
                if is_tol(b) and op in ("lt", "le") and not T.is_const(a):
                    yield a

    def on_result(self, E, st, node, d):
        if not E.recording or not st.ts.get("passed"):
            return
        c = d["kw"].get("certificate")
        if c is None or c.kind != "num" or c.term is None:
            return
        if c.known:
            return self.report(E, node, "constant", "the certificate reported with success is the constant %s" % c.const, func=self.solver)
        self.obligation("the certificate is the tested quantity", E, node)
        got = list(self.tested(st))
        if not got:
            return E.note("C35: the tested quantity is not known at the return")
        if not any(T.equal(c.term, a) for a in got):
            if any(unresolved(t, c.term) for t in got):
                return E.note("C35: certificate not resolved")
            return self.report(E, node, "other", "success was decided by %s but the certificate reported is %s" % (
                " or ".join(sorted(T.show(a, 3)[:80] for a in got)), T.show(c.term, 3)[:80]), func=self.solver)
        if self.solver == "minimize_frank_wolfe":
            self.at_point(E, st, node, d["kw"].get("x"), c.term)

    def at_point(self, E, st, node, x, c):
        if x is None:
            return
        X = E.term_of(st, x)
        calls = {s for s in T.subterms(c) if s.op == "user" and s.args[0] == "lmo"}
        # outermost oracle calls only
        inner = set()
        for s in calls:
            inner |= {z for a in s.args[1:] for z in T.subterms(a) if z in calls and z is not s}
        calls -= inner
        if X is None or len(calls) != 1:
            return E.note("C35: oracle call of the certificate not resolved")
        (s,) = calls
        self.obligation("the certificate was computed at the returned point", E, node)
        p = LN.minus(T.poly(s.args[2]), T.poly(X))
        if not p:
            return
        v, w = LN.vectors(T.poly(s.args[2])), LN.vectors(T.poly(X))
        if v is None or w is None or opaque_top(X) and opaque_top(s.args[2]):
            return E.note("C35: returned point not resolved")
        if set(v) <= set(w) or set(w) <= set(v):
            self.report(E, node, "elsewhere", "the gap was computed at %s but the point returned is %s" % (T.show(s.args[2], 3)[:100], T.show(X, 3)[:100]), func=self.solver)


def unresolved(a, b):
    """Neither is an expression, and none is an expression over the other."""
    if opaque_top(a) and opaque_top(b):
        return True
    for x, y in ((a, b), (b, a)):
        if opaque_top(x):
            return not T.contains(y, lambda s: s is x)
    return False


def opaque_top(t):
    return t.op in ("phi", "fresh", "old", "loopvar", "unk")

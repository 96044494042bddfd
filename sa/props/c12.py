from ..solver import *
from .. import linear as LN


class Check(SolverProp):
    id = "C12"
    technique = "symbolic dataflow: linear-combination analysis of the arguments of every proximal call"
    rule = """At every call prox(X, S) reached by a deterministic splitting solver, X is written as a linear combination of vectors. Each
    gradient of the objective in X has coefficient exactly -S; each vector of the unit of a gradient that is live there (the dual
    variable) has coefficient S or -S; in the primal-dual solver each adjoint product in the point given to prox_1 has a coefficient with
    factor S. Combinations whose terms were merged beyond recognition give no verdict."""

    def runs(self):
        cb = {"callback": NONE}
        return [r for r in tested_runs(True, callback=cb) if r.meta["solver"] in ("pgd", "tos", "pdhg")] + [
            R._r("minimize_proximal_gradient[fixed]", prox_grad(step="fixed", extra=cb), "pgd", solver="pgd")] + [
            R._r("minimize_primal_dual[line_search=%s,step_size2=given]" % ls, primal_dual(line_search=ls, step_size2=True, L_="op", extra=cb), "pdhg", solver="pdhg") for ls in (True, False)]

    def setup(self, E, run):
        self.run = run

    def duals(self, E, st):
        """opaque vectors with the unit of a gradient held by a live variable"""
        out = set()
        gu = E.units.norm(GU)
        for fr in st.frames.values():
            for v in fr.values():
                if getattr(v, "kind", None) != "arr" or not v.objs:
                    continue
                c = L.cont(E, st, v)
                if c is None or c.term is None or c.unit is None or E.units.norm(c.unit) != gu:
                    continue
                p = T.poly(c.term)
                if len(p) > 12:
                    continue
                for m, k in p.items():
                    if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and m[0][0].op in ("phi", "fresh", "loopvar"):
                        out.add(m[0][0])
        return out

    def on_user(self, E, st, node, d):
        if d["role"] != "prox" or not E.recording or d["x"] is None or d["step"] is None:
            return
        X, S = E.term_of(st, d["x"]), E.term_of(st, d["step"])
        if X is None or S is None:
            return E.note("unknown point or step", node)
        s = T.poly(S)
        vs = LN.vectors(T.poly(X))
        if vs is None or not s:
            return E.note("the point is not a linear combination of vectors", node)
        pd = self.run.meta["solver"] == "pdhg"
        duals = self.duals(E, st)
        minus = T._padd({}, s, -1)
        second = pd and d["which"] == "prox_2"
        for a, c in vs.items():
            if LN.is_grad(a):
                self.obligation("gradient enters with the step of the prox", E, node)
                if LN.minus(c, minus):
                    self.bad(E, node, "gradient", c, s, d, "-")
            elif pd and not second and LN.is_adjoint(a):
                self.obligation("dual variable enters with the step of the prox", E, node)
                if LN.multiple(c, s) is False:
                    self.bad(E, node, "adjoint product", c, s, d, "-")
            elif second and a.op in ("phi", "fresh", "loopvar"):
                self.obligation("dual variable enters with the step of the prox", E, node)
                if LN.multiple(c, s) is False:
                    self.bad(E, node, "dual variable", c, s, d, "")
            elif a in duals:
                self.obligation("dual variable enters with the step of the prox", E, node)
                if LN.minus(c, s) and LN.minus(c, minus):
                    self.bad(E, node, "dual variable", c, s, d, "")

    def bad(self, E, node, what, c, s, d, sign):
        self.report(E, node, what.split()[0], "the %s in the point given to %s has coefficient %s, but the step size handed over is %s" % (
            what, d["which"], LN.show(c), LN.show(s)), detail=d["which"])

from ..solver import *


class Check(SolverProp):
    id = "C10"
    technique = "interprocedural argument-flow analysis of every evaluation of a user function"
    rule = """At every call of the user's objective, gradient or (three-operator splitting) proximal operators the arguments after the
    documented ones are exactly the user's extra arguments, the same opaque sequence spread once; functions that are documented
    without extra arguments get none. With a callable jac or jac=True no finite differences are taken; otherwise finite differences
    are taken of the user's function, with the given eps."""

    def runs(self):
        out = []
        for j in ("callable", "true", "false", "none", "2-point"):
            for s, v in (("backtracking", "vanilla"), ("sublinear", "pairwise"), ("callable", "vanilla"), ("DR", "pairwise")):
                out.append(R._r("minimize_frank_wolfe[jac=%s,%s,%s]" % (j, s, v), frank_wolfe(jac=j, step=s, variant=v, lipschitz=(s == "DR")), "fw", jac=j, star="args"))
            for s in ("backtracking", "callable"):
                for a in (False, True):
                    for p in (True, False):
                        out.append(R._r("minimize_proximal_gradient[jac=%s,%s,accelerated=%s,prox=%s]" % (j, s, a, p),
                                        prox_grad(jac=j, step=s, accelerated=a, trace=True, prox=p), "pgd", jac=j, star="args"))
            out.append(R._r("build_func_grad[%s]" % j, R.util("build_func_grad", j), "util", jac=j, star="args"))
        for ls in (True, False):
            for ss in (True, False):
                for h in (None, 0, "sym"):
                    out.append(R._r("minimize_three_split[line_search=%s,step_size=%s,h=%s]" % (ls, ss, h), three_split(step_size=ss, line_search=ls, h_lip=h), "tos", jac=None, star="args_prox"))
            for l in ("op", None):
                for s2 in (False, True):
                    out.append(R._r("minimize_primal_dual[line_search=%s,L=%s,step_size2=%s]" % (ls, l, s2), primal_dual(line_search=ls, L_=l, step_size2=s2), "pdhg", jac=None, star=None))
        return out

    def setup(self, E, run):
        self.run = run
        self.source = set()
        self.site = None

    def on_enter(self, E, st, node, d):
        if d["fn"].name == "build_func_grad":
            self.site = ("%s:%d" % (d["fn"].module.path, d["fn"].node.lineno), d["fn"].name)

    def on_user(self, E, st, node, d):
        if not E.recording:
            return
        role, m = d["role"], self.run.meta
        want = {"fun": "args", "jac": "args", "prox": m["star"] if m["star"] == "args_prox" else None}.get(role, None)
        if role not in ("fun", "jac", "prox", "fgrad"):
            return
        self.source.add(role)
        what = {"fun": "the objective", "jac": "the gradient", "prox": "a proximal operator", "fgrad": "the objective"}[role]
        extra = d["extra"]
        self.obligation("%s receives the extra arguments" % what, E, node)
        if d["x"] is None or any(v.kind == "any" or (v.kind == "star" and (v.term is None or opaque(v.term))) for v in extra):
            return
        if want is None:
            if extra:
                self.report(E, node, "surplus-arguments", "%s is called with %d undocumented arguments" % (what, len(extra)), detail=role)
        elif not any(v.kind == "star" and v.term == T.sym(want) for v in extra):
            self.report(E, node, "arguments-dropped", "%s is called without the extra arguments (%s)" % (what, want), detail=role)
        elif len(extra) != 1:
            self.report(E, node, "arguments-changed", "%s is called with other arguments besides the extra ones (%s)" % (what, want), detail=role)
        if role == "jac" and m["jac"] != "callable":
            self.report(E, node, "gradient-source", "the gradient is taken from jac although jac is %s" % m["jac"])

    def on_fdgrad(self, E, st, node, d):
        if not E.recording:
            return
        m = self.run.meta
        self.source.add("fd")
        self.obligation("finite differences are taken as the user selected", E, node)
        if m["jac"] in ("callable", "true"):
            self.report(E, node, "gradient-source", "finite differences are used although the user provides the gradient (jac=%s)" % m["jac"])
            return
        e = d["eps"]
        if e is None:
            self.report(E, node, "eps-dropped", "finite differences do not use the given eps")
        elif e.kind == "num" and e.term is not None and not opaque(e.term) and e.term != T.sym("eps"):
            self.report(E, node, "eps-changed", "finite differences use %s instead of the given eps" % T.show(e.term, 3))

    def finish(self, E, run, results):
        j = run.meta["jac"]
        self.obligation("the gradient comes from the selected source")
        if not results or j is None or E.undecided:
            return
        where, fn = self.site or ("", run.name.split("[")[0])
        if j == "callable" and "jac" not in self.source:
            self.report_at(where, fn, "gradient-source", "the gradient never comes from the callable jac")
        if j == "2-point" and "fd" not in self.source:
            self.report_at(where, "jac=2-point", "source", "jac='2-point' is documented as finite differences, but the objective is required to return its gradient")
        if "fun" not in self.source:
            self.report_at(where, fn, "value-source", "the objective is never evaluated")

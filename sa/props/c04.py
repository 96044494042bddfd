from ..framework import Prop
from .. import runs as R
from ..scen import *


def bare(budget):
    """Every solver without callback and with a restricted iteration budget."""
    out = []
    for s in ("backtracking", "DR", "sublinear", "callable"):
        for v in ("vanilla", "pairwise"):
            out.append(("minimize_frank_wolfe[%s,%s]" % (v, s), frank_wolfe(step=s, variant=v, lipschitz=(s == "DR"), callback=False, budget=budget)))
    for acc in (False, True):
        for s in ("backtracking", "callable"):
            out.append(("minimize_proximal_gradient[%s%s]" % (s, ",accelerated" if acc else ""),
                        prox_grad(step=s, accelerated=acc, callback=False, budget=budget)))
    for ls in (True, False):
        for h in (None, 0, "sym"):
            out.append(("minimize_three_split[line_search=%s,h=%s]" % (ls, h), three_split(step_size=True, line_search=ls, h_lip=h, callback=False, budget=budget)))
        for l in ("op", None):
            out.append(("minimize_primal_dual[line_search=%s,L=%s]" % (ls, l), primal_dual(line_search=ls, L_=l, callback=False, budget=budget)))
    for n in ("minimize_saga", "minimize_svrg"):
        out.append((n, stoch(n, ("none",), callback=False, budget=budget)))
    out.append(("minimize_vrtos", stoch("minimize_vrtos", ("none", "none"), callback=False, budget=budget)))
    for v in R.SFW_VARIANTS:
        for s in ("sublinear", "callable") + (("DR",) if v.startswith("SAG") else ()):
            for l in ("vanilla", "pairwise"):
                out.append(("minimize_sfw[%s,%s,%s]" % (v, s, l), sfw(v, lmo_variant=l, step=s, callback=False, budget=budget)))
    return out


class Check(Prop):
    id = "C04"
    technique = "path-sensitive definite-assignment analysis over all option combinations (abstract interpretation)"
    rule = """Each routine is analysed under every combination of its options, with and without callback, with an arbitrary and with a
    zero iteration budget. On no feasible path may a local variable be read before the path has assigned it, and no arithmetic,
    comparison or subscript may be applied to a value that is None on that path."""

    def runs(self):
        rs = R.everything() + R.stochastic_combined()
        for b, t in (((0, 0), "budget 0"), ((0, INF), "no callback")):
            rs += [R._r("%s {%s}" % (n, t), f, "solver", "bare") for n, f in bare(b)]
        for r in R.solvers():
            pass
        rs += [R._r("minimize_frank_wolfe[lipschitz,%s,budget 0]" % v, frank_wolfe(lipschitz=True, variant=v, budget=(0, 0)), "solver") for v in ("vanilla", "pairwise")]
        rs += [R._r("minimize_proximal_gradient[accelerated=%s,budget 0,callback]" % a, prox_grad(accelerated=a, budget=(0, 0)), "solver") for a in (False, True)]
        rs += [R._r("minimize_three_split[budget 0,callback]", three_split(budget=(0, 0)), "solver"),
               R._r("minimize_primal_dual[budget 0,callback]", primal_dual(budget=(0, 0)), "solver")]
        return rs

    def on_unbound(self, E, st, node, d):
        if E.recording:
            self.report(E, node, "unassigned", "local variable %r is read on a path that has not assigned it" % d["name"], detail=d["name"])

    def on_bad_operand(self, E, st, node, d):
        if E.recording and d["v"].kind == "none" and d["op"] not in ("function",):
            self.report(E, node, "unset-operand", "a value that is None on this path is used in %s" % d["op"], detail=str(d["op"]).replace(" ", "-"))

    def on_missing_attr(self, E, st, node, d):
        if E.recording and d["base"] == "None":
            self.report(E, node, "unset-operand", "attribute %r is read from a value that is None on this path" % d["name"], detail=str(d["name"]))

    def on_enter(self, E, st, node, d):
        if E.recording:
            self.obligation("locals of the function are assigned before they are read", E, node)

    def on_result(self, E, st, node, d):
        if E.recording:
            self.obligation("a path reaches the result", E, node)

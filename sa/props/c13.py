from ..framework import Prop
from .. import runs as R
from ..scen import *

RES = {"certificate": None}


class Check(Prop):
    id = "C13"
    technique = "inference of physical dimensions (units of measure) by abstract interpretation of every formula"
    rule = """Every input is given the dimension its documentation implies (variable X, objective F, gradient F/X, step size X^2/F,
    Lipschitz constant F/X^2, penalty strength F/X, radius X, data Z/X, ...). Dimensions are propagated through every formula on every
    path of each public routine. Two quantities that are added, compared, selected between, stored in one array or passed where a given
    dimension is required must have the same dimension, transcendental functions take dimensionless arguments, and every result must
    have its documented dimension."""

    def runs(self):
        return R.everything() + R.stochastic_combined()

    def on(self, E, ev, st, node, d):
        if ev == "leave":
            return self.on_leave(E, st, node, d)
        if ev == "unit":
            if E.recording:
                what = str(d.get("what"))
                self.report(E, node, "unit", "%s combines a quantity of dimension %s with one of dimension %s" % (
                    what, E.units.show(d["a"]), E.units.show(d["b"])), detail=what.replace(" ", "-")[:40])
        elif ev in ("store", "aug", "compare", "user") and E.recording:
            self.obligation("quantities combined at this site have one dimension", E, node)
        elif ev == "result" and E.recording:
            x = d["kw"].get("x")
            if x is not None:
                self.want(E, st, node, x, X1, "solution")

    def want(self, E, st, node, v, unit, what, fn=None):
        c = L.cont(E, st, v)
        if c.unit in (TOP, POLY):
            return
        self.obligation("dimension of the " + what, E, node)
        if not E.units.unify(c.unit, unit):
            where, f = E.where(node)
            self.report_at(where, fn or f, "result-unit", "the %s has dimension %s, not %s" % (what, E.units.show(c.unit), E.units.show(unit)),
                           what.replace(" ", "-"))

    def setup(self, E, run):
        self.run = run

    def on_leave(self, E, st, node, d):
        # every value the routine called from outside returns, before the paths are merged
        if d["top"] and E.recording:
            self.results(E, self.run, [(st, d["ret"])])

    def finish(self, E, run, results):
        self.results(E, run, results)

    def results(self, E, run, results):
        m = run.meta
        cls, what = m.get("cls"), m.get("what")
        for st, v in results:
            if "loss" in run.tags:
                x = E.expect
                f, xu, z = x["F"], x["X"], x["Z"]
                q = E.units.div
                exp = {"call": f, "value": f, "deriv": q(f, z), "lipschitz": q(f, E.units.pow(xu, 2)), "max_lipschitz": q(f, E.units.pow(xu, 2)),
                       "hess": q(f, xu), "hess_trace": None}[what] if what != "pair" else None
                if what == "pair":
                    its = E.items_of(st, v)
                    if its and len(its) == 2:
                        self.want(E, st, NODE, its[0], f, "loss value", cls + ".f_grad")
                        self.want(E, st, NODE, its[1], q(f, xu), "loss gradient", cls + ".f_grad")
                elif exp is not None:
                    self.want(E, st, NODE, v, exp, "result", cls + "." + what)
            elif "penalty" in run.tags:
                self.want(E, st, NODE, v, F1 if what == "call" else X1, "result", cls + "." + what)
            elif "constraint" in run.tags and what == "prox":
                self.want(E, st, NODE, v, X1, "result", cls + "." + what)
            elif "constraint" in run.tags and what.startswith("lmo"):
                its = E.items_of(st, v)
                if its:
                    self.want(E, st, NODE, its[0], X1, "direction", cls + "." + what)
                    if len(its) == 4:
                        self.want(E, st, NODE, its[3], ONE, "maximum step", cls + "." + what)
            elif "tv" in run.tags and what == "prox":
                self.want(E, st, NODE, v, X1, "result", cls)
            elif "util" in run.tags and cls in ("fast_csr_vm", "fast_csr_mv", "init_lipschitz", "get_max_lipschitz"):
                exp = {"fast_csr_vm": U(F=1, X=-1), "fast_csr_mv": U(Z=1), "init_lipschitz": LU, "get_max_lipschitz": U(Z=2, X=-2)}[cls]
                self.want(E, st, NODE, v, exp, "result", cls)
        if "kernel" in run.tags and hasattr(E, "kernel_x"):
            for st, v in results:
                self.want(E, st, NODE, E.kernel_x, X1, "updated iterate", cls)

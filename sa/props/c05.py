from ..framework import Prop
from .. import runs as R
from .. import ops
from ..scen import *


def lib_lmo(cls, meth="lmo"):
    def build(E, st):
        for s, o in ops.construct(E, st, "copt.constraint." + cls, ops.con_args(E, cls)):
            for s2, m in E.getattr(s, o, meth, NODE):
                if s2 is not st:
                    st.heap.update(s2.heap)
                return m
        raise RuntimeError("no oracle")
    return build


def lib_prox(mod, cls):
    """args of the prox of a library object, for a solver scenario: built inside the run."""
    def build(E, st):
        a, k = (ops.con_args(E, cls), {}) if mod == "constraint" else ops.pen_args(E, st, cls)
        for s, o in ops.construct(E, st, "copt.%s.%s" % (mod, cls), a, k):
            for s2, m in E.getattr(s, o, "prox", NODE):
                if s2 is not st:
                    st.heap.update(s2.heap)
                return m
        raise RuntimeError("no prox")
    return build


LMOS = (("L1Ball", "lmo"), ("SimplexConstraint", "lmo"), ("TraceBall", "lmo"))
PROXES = [("penalty", c) for c in R.PENALTIES] + [("constraint", c) for c in ("LinfBall", "L2Ball", "L1Ball", "SimplexConstraint", "TraceBall")]


def user_prox(mod, cls):
    """User function standing for the operator: calls the library's with whatever the solver passes."""
    def h(E, st, args, kwargs, node):
        out = []
        a, k = (ops.con_args(E, cls), {}) if mod == "constraint" else ops.pen_args(E, st, cls)
        for s, o in ops.construct(E, st, "copt.%s.%s" % (mod, cls), a, k):
            for s2, m in E.getattr(s, o, "prox", node):
                out += E.call_value(s2, m, args, kwargs, node)
        return out
    return h


class Check(Prop):
    id = "C05"
    technique = "protocol checking: signatures and shapes of results along the calls between solvers and operators"
    rule = """Each oracle, proximal operator, sparse kernel and loss of the library is driven by the solvers that accept it and by a
    direct call with the protocol's arguments. Every call must match the signature of the function it reaches, every unpacking the number
    of values returned, and the results have the documented form: four values (array, representation, representation, number) for an
    oracle, an array for a proximal operator, a pair (kernel, blocks) for a factory, a pair (number, array) or one number for a loss."""

    def runs(self):
        rs = []
        for c, m in LMOS:
            rs.append(R._r("minimize_frank_wolfe with %s.%s" % (c, m), frank_wolfe(lmo=lib_lmo(c, m)), "solver", "lmo"))
            rs.append(R._r("minimize_sfw with %s.%s" % (c, m), sfw(lmo=lib_lmo(c, m)), "solver", "lmo"))
            rs.append(R._r("minimize_sfw[LF] with %s.%s" % (c, m), sfw("LF", lmo=lib_lmo(c, m)), "solver", "lmo"))
        for v in ("pairwise",):
            rs.append(R._r("minimize_frank_wolfe[pairwise] with L1Ball.lmo_pairwise", frank_wolfe(variant="pairwise", lmo=lib_lmo("L1Ball", "lmo_pairwise")), "solver", "lmo"))
            rs.append(R._r("minimize_sfw[pairwise] with L1Ball.lmo_pairwise", sfw(lmo_variant="pairwise", lmo=lib_lmo("L1Ball", "lmo_pairwise")), "solver", "lmo"))
        for mod, c in PROXES:
            p = user("prox", user_prox(mod, c))
            rs.append(R._r("minimize_proximal_gradient with %s.prox" % c, prox_grad(extra={"prox": p}, step="callable"), "solver", "prox"))
            rs.append(R._r("minimize_three_split with %s.prox" % c, three_split(step_size=True, line_search=False, extra={"prox_1": p, "prox_2": p}), "solver", "prox"))
            rs.append(R._r("minimize_primal_dual with %s.prox" % c, primal_dual(line_search=False, L_=None, extra={"prox_1": p, "prox_2": p}), "solver", "prox"))
        return rs + R.operators() + R.losses(("dense", "csr")) + R.stochastic_combined()

    def setup(self, E, run):
        self.run = run

    def on_bad_call(self, E, st, node, d):
        if E.recording:
            self.report(E, node, "signature", "%s is called with arguments it does not accept: %s" % (d["fn"].name, d["err"]), detail=d["fn"].name)

    def on_unpack_mismatch(self, E, st, node, d):
        if E.recording and not (d["v"] is not None and d["got"] is None and d["v"].kind not in ("num", "none")):
            self.report(E, node, "unpack", "%s values are unpacked from a result that has %s" % (d["want"], d["got"] if d["got"] is not None else "none"))

    def on_call_noncallable(self, E, st, node, d):
        if E.recording and d["f"].kind in ("num", "none", "str", "tuple", "arr"):
            self.report(E, node, "not-callable", "a %s is called as a function" % d["f"].kind)

    def on_protocol(self, E, st, node, d):
        if E.recording:
            self.report_at("", self.run.meta.get("cls", ""), "factory-result", d["what"], self.run.meta.get("cls", ""))

    def on_bad_operand(self, E, st, node, d):
        if E.recording and d["v"].kind in ("none", "func", "tuple") and d["op"] != "function" and ("lmo" in self.run.tags or "prox" in self.run.tags) and "solver" in self.run.tags:
            self.report(E, node, "operand", "a %s returned by the operator is used in %s" % (d["v"].kind, d["op"]))

    def on_enter(self, E, st, node, d):
        if E.recording:
            self.obligation("call matches the signature of %s" % d["fn"].name, E, node)

    def form(self, E, st, v, want, where, what):
        """want: 'array', 'number' or None (anything)"""
        self.obligation("form of the result of " + where)
        k = v.kind
        if k == "any" or want is None:
            return
        ok = {"array": ("arr", "sp", "num"), "number": ("num", "arr"), "array!": ("arr",)}[want]
        if want == "number" and k == "arr":
            ax = L.cont(E, st, v).axes
            if ax is not None and len(ax) >= 1 and any(a not in (None, "1") for a in ax):
                self.report_at("", where, "result-form", "%s is an array over %s, not a number" % (what, "x".join(str(a) for a in ax)), what.replace(" ", "-"))
            return
        if k not in ok:
            self.report_at("", where, "result-form", "%s is a %s" % (what, k), what.replace(" ", "-"))

    def finish(self, E, run, results):
        m = run.meta
        cls, what = m.get("cls"), m.get("what")
        where = "%s.%s" % (cls, what)
        if "solver" in run.tags:
            return
        if not results:
            return
        for st, v in results:
            if "constraint" in run.tags and what.startswith("lmo"):
                self.obligation("an oracle returns four values")
                its = E.items_of(st, v)
                if its is None:
                    if v.kind in ("arr", "num", "none", "str"):
                        self.report_at("", where, "result-form", "the oracle returns a %s, not four values" % v.kind, "count")
                    continue
                if len(its) != 4:
                    self.report_at("", where, "result-form", "the oracle returns %d values, not four" % len(its), "count")
                    continue
                self.form(E, st, its[0], "array!", where, "the direction")
                self.form(E, st, its[3], "number", where, "the maximum step")
                if its[3].kind == "none":
                    self.report_at("", where, "result-form", "the maximum step is None", "step")
                if what == "lmo_pairwise":
                    for i, n in ((1, "Frank-Wolfe"), (2, "away")):
                        if its[i].kind == "none":
                            self.report_at("", where, "result-form", "the %s vertex has no representation" % n, n)
            elif what == "prox":
                self.form(E, st, v, "array", where, "the result")
                if v.kind == "none":
                    self.report_at("", where, "result-form", "the operator returns nothing", "none")
            elif "loss" in run.tags and what in ("call", "value"):
                self.form(E, st, v, "number", where, "the value")
                if v.kind == "tuple":
                    self.report_at("", where, "result-form", "the value is a tuple", "tuple")
            elif "loss" in run.tags and what == "pair":
                its = E.items_of(st, v)
                if its is None:
                    if v.kind in ("arr", "num", "none"):
                        self.report_at("", where, "result-form", "f_grad returns a %s, not a pair" % v.kind, "pair")
                elif len(its) != 2:
                    self.report_at("", where, "result-form", "f_grad returns %d values, not a pair" % len(its), "pair")
                else:
                    self.form(E, st, its[0], "number", where, "the loss")
                    self.form(E, st, its[1], "array!", where, "the gradient")

"""Typestate shared by the solver properties: stopping test, callback, budgets, line searches."""
from .framework import Prop
from . import runs as R
from .scen import *


def implied(t, pol):
    """Comparison literals implied by a condition being pol."""
    if t is None:
        return
    if t.op == "not":
        yield from implied(t.args[0], not pol)
    elif (t.op == "and" and pol) or (t.op == "or" and not pol):
        for a in t.args:
            yield from implied(a, pol)
    elif t.op == "call" and t.args[0] in ("bool", "numpy.bool_") and len(t.args) == 2:
        yield from implied(t.args[1], pol)
    elif t.op in ("lt", "le", "eq") and len(t.args) == 2:
        if pol:
            yield t.op, t.args[0], t.args[1]
        elif t.op == "lt":
            yield "le", t.args[1], t.args[0]
        elif t.op == "le":
            yield "lt", t.args[1], t.args[0]


def has_sym(t, *names):
    return T.contains(t, lambda x: x.op == "sym" and x.args[0] in names)


def is_tol(t):
    return t.op == "sym" and t.args[0] == "tol"


def opaque(t):
    return T.contains(t, lambda x: x.op in ("phi", "fresh", "old", "loopvar", "unk"))


def h_stop(E, st, args, kwargs, node):
    """A callback that may return False (one path) or anything else (the other)."""
    a, b = st.copy(), st
    a.ts["stopped"] = True
    for s in (a, b):
        E.emit("callback", s, node, args=args, kwargs=kwargs)
    return [(a, vbool(False, frozenset(["callback"]))), (b, NONE)]


STOP = {"callback": user("callback", h_stop)}


def tested_runs(det_only=False, callback=STOP):
    """One run per branch of each solver, with a callback that may stop it."""
    out = []
    for v in ("vanilla", "pairwise"):
        for s in ("backtracking", "DR", "sublinear", "callable"):
            out.append(R._r("minimize_frank_wolfe[%s,%s]" % (v, s), frank_wolfe(step=s, variant=v, lipschitz=(s == "DR"), extra=callback), "fw", "det", solver="fw"))
    for s in ("backtracking", "callable"):
        for acc in (False, True):
            for tr in (False, True):
                out.append(R._r("minimize_proximal_gradient[%s%s%s]" % (s, ",accelerated" if acc else "", ",trace" if tr else ""),
                                prox_grad(step=s, accelerated=acc, trace=tr, extra=callback), "pgd", "det", solver="pgd"))
    for ls in (True, False):
        for h in (None, 0, "sym"):
            out.append(R._r("minimize_three_split[line_search=%s,h=%s]" % (ls, h), three_split(step_size=True, line_search=ls, h_lip=h, extra=callback), "tos", "det", solver="tos"))
        for l in ("op", None):
            out.append(R._r("minimize_primal_dual[line_search=%s,L=%s]" % (ls, l), primal_dual(line_search=ls, L_=l, extra=callback), "pdhg", "det", solver="pdhg"))
    if det_only:
        return out
    for n in ("minimize_saga", "minimize_svrg"):
        out.append(R._r(n, stoch(n, ("user",), extra=callback), "stoch", solver=n[9:]))
    out.append(R._r("minimize_vrtos", stoch("minimize_vrtos", ("user", "user"), extra=callback), "stoch", solver="vrtos"))
    for v in R.SFW_VARIANTS:
        for l in ("vanilla", "pairwise"):
            for b in (False, True):
                out.append(R._r("minimize_sfw[%s,%s%s]" % (v, l, ",batch" if b else ""), sfw(v, lmo_variant=l, batch=b, extra=callback), "stoch", solver="sfw"))
    for v in ("SAG", "SAGA"):
        out.append(R._r("minimize_sfw[%s,DR]" % v, sfw(v, step="DR", extra=callback), "stoch", solver="sfw"))
    return out


class SolverProp(Prop):
    """Sets st.ts['passed'] on paths where the stopping quantity is below tol, 'spent' where the iteration budget is used up."""

    def on_branch(self, E, st, node, d):
        v = d["v"]
        if v.kind != "num" or v.term is None:
            return
        for op, a, b in implied(v.term, d["pol"]):
            self.literal(E, st, node, op, a, b)

    def literal(self, E, st, node, op, a, b):
        if is_tol(b) and op in ("lt", "le") and not T.is_const(a):
            st.ts["passed"] = True
        if a.op == "sym" and a.args[0] == "max_iter" and not T.is_const(b):
            st.ts["spent"] = True

from ..framework import Prop
from .. import runs as R
from .. import scen, ops
from ..scen import *


def identity_prox(runs):
    """The same solvers with a user operator that returns the array it was given."""
    return runs


def h_prox_identity(E, st, args, kwargs, node):
    return [(st, args[0] if args else vany())]


class Check(Prop):
    id = "C01"
    technique = "interprocedural alias and effect analysis (abstract interpretation of the syntax tree)"
    rule = """Every in-place effect (augmented assignment, subscript store, out=, mutating method, kernel call) reachable from a public
    routine is resolved to the set of arrays it may modify, following views (slices, reshape, ravel, asarray, transpose), closures and
    calls. The set must not contain an array owned by the caller: a parameter, a gradient returned by the user's function, or, when the
    user's proximal operator returns its own argument, anything reached through it. Sparse proximal kernels may modify the iterate."""

    def runs(self):
        rs = R.everything()
        for acc in (False, True):
            rs.append(R._r("minimize_proximal_gradient[identity prox%s]" % (",accelerated" if acc else ""),
                           prox_grad(accelerated=acc, extra={"prox": user("prox", h_prox_identity)}), "ident"))
        for ls in (True, False):
            ex = {"prox_1": user("prox_1", h_prox_identity), "prox_2": user("prox_2", h_prox_identity)}
            rs.append(R._r("minimize_three_split[identity prox,line_search=%s]" % ls, three_split(line_search=ls, extra=ex), "ident"))
            rs.append(R._r("minimize_primal_dual[identity prox,line_search=%s]" % ls, primal_dual(line_search=ls, extra=ex), "ident"))
        return rs

    def setup(self, E, run):
        self.kernel = "kernel" in run.tags

    def on_mutate(self, E, st, node, d):
        if not E.recording:
            return
        objs = d["objs"]
        self.obligation("in-place effect does not reach the caller", E, node)
        bad = sorted(o for o in objs if o.startswith(("P:", "U:")))
        if self.kernel:
            bad = [o for o in bad if o != "P:x"]
        if bad:
            names = ", ".join("the gradient returned by the user's function" if o.startswith("U:") else o[2:] for o in bad)
            self.report(E, node, "writes-caller-array", "in-place update (%s) modifies %s, which belongs to the caller" % (d.get("how"), names),
                        detail=bad[0].split("@")[0].split("/")[0])

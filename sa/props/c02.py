from ..framework import Prop
from .. import runs as R
from ..scen import *


def clone(r, suffix, **meta):
    q = R._r(r.name + suffix, r.build, *r.tags, **dict(getattr(r, "meta", {}), **meta))
    return q


class Check(Prop):
    id = "C02"
    technique = "abstract interpretation of element types with aliasing, starting from integer and list inputs"
    rule = """Each solver is analysed with a starting point given as an integer array and as a list, each loss with integer data and an
    integer evaluation point, each proximal operator and oracle with integer arguments. No floating-point value may be stored into an
    array whose element type is (or may be inherited as) integer, and the solution a solver returns must be a floating-point array."""

    def runs(self):
        out = []
        for r in R.solvers():
            out.append(clone(r, " x0: int", x0=("i", "arr"), xdt="i"))
            out.append(clone(r, " x0: list", x0=("i", "list"), xdt="i"))
        for r in R.losses():
            out.append(clone(r, " int data", ints=True))
            out.append(clone(r, " int x", x0=("i",)))
        out += R.penalties("i") + R.constraints("i") + R.tvs("i") + R.kernels()
        out += [clone(r, " int x", x0=("i", "arr")) for r in R.utils_()]
        return out

    def setup(self, E, run):
        if run.meta.get("x0"):
            E.x0_as = run.meta["x0"]
        if run.meta.get("ints"):
            E.int_data = True

    def on_store_dtype(self, E, st, node, d):
        if not E.recording:
            return
        self.report(E, node, "truncating-store", "a floating-point value is stored into an integer array and loses its fractional part")

    def on_truncate(self, E, st, node, d):
        if E.recording:
            self.report(E, node, "truncating-conversion", "a floating-point value is converted to integer")

    def on_store(self, E, st, node, d):
        if E.recording:
            self.obligation("value stored fits the element type", E, node)

    on_aug = on_store

    def on_result(self, E, st, node, d):
        x = d["kw"].get("x")
        if x is None or not E.recording:
            return
        c = E.c(st, x)
        self.obligation("returned solution is floating point", E, node)
        if c.dt in ("i", "b"):
            self.report(E, node, "integer-solution", "the solution returned is an integer array")
        if x.kind in ("list", "tuple"):
            self.report(E, node, "list-solution", "the solution returned is the list given as starting point")

from ..framework import Prop
from .. import runs as R
from ..scen import *


def base(ax):
    """The space an axis has one entry per element of (a pointer array has one more, a selection fewer)."""
    ax = ax.split("|")[0]
    for k in ("^+1", "+1", "-1"):
        if ax.endswith(k):
            ax = ax[:-len(k)]
    return ax


def opaque(s):
    return s is None or s == "0" or s.startswith(("n:", "N:")) or s.isdigit()


class Check(Prop):
    id = "C15"
    technique = "index-space (axis role) inference by abstract interpretation, with one space per role of the sparse structures"
    rule = """Each array is given the space its positions range over (samples, features, blocks, positions of a sparse matrix, row
    pointers) and each integer the space it is an index into, starting from the sparse structures the routine receives and propagated
    through loads, loops, counters and calls. An array is only indexed by indices of its own space, arrays combined element by element
    have the same axis, values stored into an index array index the declared space, the bounds of a range come from one space, and a
    sparse matrix is declared with the spaces its index arrays range over."""
    tags = ("randomized", "utils", "penalty", "loss")

    def runs(self):
        rs = R.stochastic() + R.stochastic_combined() + R.kernels() + R.utils_() + R.losses()
        for n in ("minimize_saga", "minimize_svrg"):
            for f in ("dense", "any"):
                rs.append(R._r("%s[%s]" % (n, f), stoch(n, ("none",), fmt=f), "solver", "stoch", "vr"))
        for f in ("dense", "any"):
            rs.append(R._r("minimize_vrtos[%s]" % f, stoch("minimize_vrtos", ("none", "user"), fmt=f), "solver", "stoch", "vr"))
            rs.append(R._r("minimize_sfw[%s]" % f, sfw(fmt=f), "solver", "stoch", "sfw"))
        return rs + [r for r in R.penalties() if r.meta["cls"] in ("L1Norm", "GroupL1", "FusedLasso")] + \
            [r for r in R.constraints() if not r.meta["cls"].startswith("Trace")]

    def compatible(self, E, ax, idx):
        if ax is not None and idx is not None and ax in ("S", "F", "S+1", "B1", "B2", "B1+1", "B2+1") and not E.same_space(base(ax), idx) and \
                (idx in E.positions or E.find_space(idx) in E.positions):
            return False
        if ax is not None and idx is not None and base(ax) in E.rowspaces and not E.same_space(base(ax), idx) and \
                (idx in ("S", "F") or idx.startswith("P:") or idx in E.positions or E.find_space(idx) in E.positions):
            return False
        if opaque(ax) or opaque(idx) or ax == "1":
            return None
        a, i = base(ax), base(idx)
        if a == i or E.same_space(a, i):
            return True
        if L.ax_ok(E, a, i) and not (a.startswith("t:") and i.startswith("t:")):
            return None         # a length whose role is unknown
        if a.startswith("t:") or i.startswith("t:"):
            return None
        if "*" in a or "*" in i or "+" in a:
            return None
        return False

    def on_index(self, E, st, node, d):
        if not E.recording:
            return
        ok = self.compatible(E, d["axis"], d["idx"])
        if ok is None:
            return
        self.obligation("index belongs to the space of the array", E, node)
        if ok is False:
            self.report(E, node, "index-space", "an array over %s is indexed by an index into %s" % (self.show(d["axis"]), self.show(d["idx"])),
                        detail="%s/%s" % (self.show(d["axis"]), self.show(d["idx"])))

    def show(self, a):
        n = {"S": "samples", "F": "features", "S+1": "row-pointers", "B1": "blocks", "B2": "blocks-2", "R": "rows", "C": "columns"}
        if a in n:
            return n[a]
        if a.startswith("P:"):
            return "positions"
        return str(a).replace(" ", "")

    def bad(self, E, node, rule, text, detail=""):
        if E.recording:
            self.report(E, node, rule, text, detail=detail)

    def on_bound(self, E, st, node, d):
        if self.compatible(E, d["axis"], d["idx"]) is False:
            self.bad(E, node, "slice-space", "an array over %s is sliced at an index into %s" % (self.show(d["axis"]), self.show(d["idx"])))

    def on_axis_mismatch(self, E, st, node, d):
        self.bad(E, node, "axis", "%s: arrays over (%s) and (%s) are combined" % (
            d["what"], ", ".join(map(str, d["a"] or ())), ", ".join(map(str, d["b"] or ()))), detail=str(d["what"]).replace(" ", "-"))

    def on_elem_space(self, E, st, node, d):
        if not opaque(d["idx"]) and not opaque(d["vidx"]):
            self.bad(E, node, "stored-index", "an index into %s is stored in an array of indices into %s" % (self.show(d["vidx"]), self.show(d["idx"])))

    def on_range_space(self, E, st, node, d):
        self.bad(E, node, "range", "a range runs from an index into %s to an index into %s" % (self.show(d["a"]), self.show(d["b"])))

    def on_csr_shape(self, E, st, node, d):
        self.bad(E, node, "shape", "a sparse matrix is declared over %s but its %s range over %s" % (self.show(d["declared"]), d["what"], self.show(d["actual"])))

    def on_store(self, E, st, node, d):
        if E.recording:
            self.obligation("axes of the stored value fit", E, node)

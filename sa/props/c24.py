from . import c15
from .. import runs as R
from .. import ops
from .. import terms as T
from ..scen import *


def image():
    """load_img1(n_rows, n_cols) with the image library reduced to what it does to dimensions."""
    def build(E):
        st = E.start(E.prog.modules["copt.datasets"])
        return E.call_value(st, E.func("copt.datasets.load_img1"), [size(E, "R"), size(E, "C")], {}, NODE)
    return build


class Check(c15.Check):
    id = "C24"
    technique = "axis-role inference: rows and columns are distinct index spaces through reshape, traversal, products and results"
    rule = """n_rows and n_cols (and the two entries of a shape) are sizes of two distinct spaces R and C. A flat image is reshaped to
    (R, C) in row-major order and never to (C, R); a row index ranges over R and indexes the first axis, a column index ranges over C
    and indexes the second, is bounded by the size of its own space, and flattening starts from (R, C). The two-dimensional total
    variation traverses both directions. The sample image is returned with n_rows along its first axis."""

    def runs(self):
        rs = R.tvs() + [r for r in R.penalties() if r.meta["cls"] in ("TraceNorm", "TotalVariation2D")] + \
            [r for r in R.constraints() if r.meta["cls"].startswith("Trace")]
        rs.append(R._r("load_img1", image(), "img", cls="load_img1", what="img"))
        return rs

    def setup(self, E, run):
        self.run = run
        self.dirs = set()
        self.diffs = []
        self.sliced = False
        if "img" in run.tags:
            E.lib_hooks["PIL.Image.fromarray"] = lambda E, st, a, kw, node: [(st, V("any", term=T.sym("image"), extra={"img": True}))]

    def on_index(self, E, st, node, d):
        super().on_index(E, st, node, d)
        b = d["base"].axes
        if b is not None and len(b) == 2 and not opaque_idx(d["idx"]):
            self.dirs.add((d["idx"], d["pos"]))

    def on_load(self, E, st, node, d):
        if d["base"].axes is not None and len(d["base"].axes) == 2:
            self.sliced = True

    @staticmethod
    def smaller(t):
        """'R' or 'C' standing for a bound that is the smaller (or larger) of the two sizes, up to a constant"""
        if t is None:
            return None
        p = T.poly(t)
        at = [(m, c) for m, c in p.items() if m]
        if len(at) != 1 or at[0][1] != 1 or len(at[0][0]) != 1 or at[0][0][0][1] != 1:
            return None
        a = at[0][0][0][0]
        if a.op == "call" and a.args[0] in ("min", "max") and len(a.args) == 3:
            n = {T.show(x) for x in a.args[1:]}
            if n == {"#R", "#C"}:
                return "both"
        return None

    def on_compare(self, E, st, node, d):
        if not E.recording:
            return
        for a, b in ((d["a"], d["b"]), (d["b"], d["a"])):
            if a.kind == "num" and b.kind == "num" and a.idx in ("R", "C"):
                ax = L.axis_of(E, st, b)
                if b.idx is not None:
                    continue
                s = self.smaller(b.term) or (c15.base(ax) if ax is not None else None)
                if s == "both":
                    self.obligation("a row or column index is bounded by its own size", E, node)
                    self.report(E, node, "bound-both", "an index into %s is compared with the smaller or larger of the numbers of rows and columns" % self.show(a.idx))
                if s in ("R", "C"):
                    self.obligation("a row or column index is bounded by its own size", E, node)
                    if s != a.idx:
                        self.report(E, node, "bound", "an index into %s is compared with the number of %s" % (self.show(a.idx), self.show(s)))

    def on_reshape(self, E, st, node, d):
        if not E.recording:
            return
        src, dst = d["base"].axes, d["axes"]
        if src is None or dst is None:
            return
        flat = lambda x: len(x) == 1 and x[0] is not None and sorted(x[0].split("*")) == ["C", "R"]
        self.obligation("reshape keeps rows first", E, node)
        o = d.get("order")
        o = o if isinstance(o, str) else (o.const if getattr(o, "known", False) else None)
        if flat(src) and len(dst) == 2:
            ok = (dst == ("R", "C")) if o in (None, "C") else (dst == ("C", "R") and False)
            if dst in (("R", "C"), ("C", "R")) and not ok:
                self.report(E, node, "reshape", "a flat image of rows by columns is reshaped to (%s, %s) in order %s" % (self.show(dst[0]), self.show(dst[1]), o or "C"))
        elif len(src) == 2 and set(src) == {"R", "C"} and len(dst) == 1:
            if (tuple(src) == ("C", "R")) == (o in (None, "C")):
                self.report(E, node, "flatten", "an array over (%s, %s) is flattened in order %s, which lists columns first" % (self.show(src[0]), self.show(src[1]), o or "C"))

    def on_diff(self, E, st, node, d):
        if E.recording and d["base"].axes is not None and len(d["base"].axes) == 2:
            a = d["axis"]
            self.diffs.append((a.const if a is not None and getattr(a, "known", False) else (a if isinstance(a, int) else None), node))

    def on_method(self, E, st, node, d):
        if "img" in self.run.tags and d["name"] == "resize" and E.recording and d["recv"].kind == "any":
            a = d["args"][0] if d["args"] else d["kwargs"].get("size")
            its = E.items_of(st, a) if a is not None else None
            if its and len(its) == 2:
                ax = tuple(L.axis_of(E, st, x) for x in its)
                self.obligation("image is resized to n_cols by n_rows", E, node)
                if ax == ("R", "C"):
                    self.report(E, node, "image-size", "the image is resized to width n_rows and height n_cols")

    def finish(self, E, run, results):
        cls, what = run.meta["cls"], run.meta["what"]
        if cls in ("prox_tv2d", "TotalVariation2D") and what == "prox":
            self.obligation("both directions are traversed")
            got = {i for i, p in self.dirs}
            if self.dirs and got < {"R", "C"}:
                self.report_at("", cls, "one-direction", "the image is only traversed along %s" % ("columns" if "C" in got else "rows"))
        if cls == "TotalVariation2D" and what == "call":
            ks = [k % 2 if k is not None else None for k, _ in self.diffs]
            if len(ks) >= 2 and None not in ks and len(set(ks)) == 1 and not self.sliced:
                self.report(E, self.diffs[0][1], "one-direction", "differences are taken along axis %d only" % ks[0])
        for st, v in results:
            its = E.items_of(st, v) if v.kind == "tuple" else None
            for w in its or [v]:
                ax = L.cont(E, st, w).axes
                if ax is None:
                    continue
                self.obligation("the result lists rows first")
                if tuple(ax) in (("C", "R"), ("C*R",)):
                    self.report_at("", cls + "." + what, "result-axes", "the result has columns along its first axis")


def opaque_idx(i):
    return i not in ("R", "C")

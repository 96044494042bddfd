import ast
from ..framework import Prop
from .. import runs as R, terms as T
from ..scen import *
from .. import ops

ARITH = {"add", "sub", "mul", "div", "neg", "const", "poly", "load", "slice", "sym", "pow", "size", "old"}
OPAQUE = ("phi", "fresh", "loopvar", "old")
SITES = [ast.parse("\n" * k + "0").body[0] for k in (1, 2)]      # where the further objects are built
_norm = {}


def norm(t):
    """The usual ways to write a squared length."""
    r = _norm.get(t)
    if r is not None:
        return r
    if t.args and any(isinstance(a, T.Term) for a in t.args):
        t2 = T.mk(t.op, *[norm(a) if isinstance(a, T.Term) else a for a in t.args])
    else:
        t2 = t
    if t2.op == "pow" and len(t2.args) == 2 and isinstance(t2.args[1], T.Term) and T.is_const(t2.args[1]) and t2.args[1].args[0] == 2:
        b = t2.args[0]
        if b.op in ("norm", "norm2") and len(b.args) == 1:
            t2 = T.mk("dot", b.args[0], b.args[0])
        elif b.op == "call" and str(b.args[0]).endswith("linalg.norm") and len(b.args) == 2:
            t2 = T.mk("dot", b.args[1], b.args[1])
    if t2.op == "load" and len(t2.args) == 2 and t2.args[0].op == "dot":
        t2 = t2.args[0]
    if t2.op == "abs" and len(t2.args) == 1 and T.is_const(t2.args[0]) is False and t2.args[0].op == "abs":
        t2 = t2.args[0]
    if t2 is not t and t in T.KIND:
        T.KIND.setdefault(t2, T.KIND[t])
    _norm[t] = t2
    return t2


def vocabulary(t, seen=None, out=None):
    out = set() if out is None else out
    for s in T.subterms(t):
        out.add(s.op if s.op != "call" else "call:" + str(s.args[0]))
    return out - ARITH


def atoms(p):
    return {a for m in p for a, e in m}


def verdict(a, b):
    """'equal', 'different' or None: two values as polynomials over atoms. A difference counts when the atoms that occur on one side
    only have no counterpart on the other side, or are made of the same operations."""
    a, b = norm(a), norm(b)
    pa, pb = T.poly(a), T.poly(b)
    d = T._padd(pa, pb, -1)
    if not d:
        return "equal"
    if any(T.contains(t, lambda s: s.op in OPAQUE) for t in (a, b)):
        return None
    A, B = atoms(pa), atoms(pb)
    ua, ub = A - B, B - A
    if not ua or not ub:
        return "different"
    va = set().union(*[vocabulary(t) for t in ua])
    vb = set().union(*[vocabulary(t) for t in ub])
    return "different" if va == vb else None


class Check(Prop):
    id = "C21"
    technique = "value numbering of the losses: the terms returned by the three ways to evaluate a loss compared as polynomials over canonical atoms"
    rule = """f(x), f_grad(x, return_gradient=False) and f_grad(x)[0] are the same term over the data and the point, whatever was evaluated
    before on the same object (other points, the same array with other content, another loss object). The first is a scalar and the pair
    is a scalar and a one-dimensional array with as many entries as x."""

    def runs(self):
        out = []
        for c in ("LogLoss", "SquareLoss", "HuberLoss"):
            for f in ("dense", "csr", "any", "none"):
                for ic in ((False, True) if c == "LogLoss" and f != "none" else (False,)):
                    for hist in ("", "other point", "same array", "other object"):
                        if hist and f not in ("dense", "csr"):
                            continue
                        tag = f + (",intercept" if ic else "") + ("," + hist if hist else "")
                        out.append(R._r("%s[%s]" % (c, tag), self.build(c, f, ic, hist), "loss", c, f, hist, cls=c, icpt=ic, hist=hist))
        return out

    def build(self, cls, fmt, icpt, hist):
        def go(E):
            fx = "F+1" if icpt else "F"
            res = []
            for s, o, u in ops.make_loss(E, cls, fmt, icpt):
                x = param(E, s, "x", (fx,), u["x"])
                starts = [(s, ())]
                if hist:
                    # the value given by an object that has evaluated nothing else
                    starts = []
                    a = list(data(E, s, fmt, aunit=u["A"], bunit=u["b"], brng=(0, 1) if cls == "LogLoss" else None))
                    a.append(scalar("alpha", u["al"], rng=(0, INF)))
                    kw = {"delta": scalar("delta", u["Z"], rng=(0, INF))} if cls == "HuberLoss" else {}
                    for s1, o1 in E.call_value(s, E.func("copt.loss." + cls), a, kw, SITES[0]):
                        if icpt:
                            for ob in o1.objs:
                                s1.heap[ob].attrs["intercept"] = vbool(True)
                        starts += [(s2, (v,)) for s2, v in E.call_value(s1, o1, [x], {}, NODE)]
                ref = []
                for s1, acc in starts:
                    if hist == "other object":
                        A2 = param(E, s1, "A2", ("S", "F"), u["A"]) if fmt == "dense" else sparam(E, s1, "A2", ("S", "F"), u["A"], fmt=fmt)
                        b2 = param(E, s1, "b2", ("S",), u["b"], rng=(0, 1) if cls == "LogLoss" else None)
                        for s3, o2 in E.call_value(s1, E.func("copt.loss." + cls), [A2, b2, scalar("alpha2", u["al"], rng=(0, INF))], {}, SITES[1]):
                            if icpt:
                                for ob in o2.objs:
                                    s3.heap[ob].attrs["intercept"] = vbool(True)
                            ref += [(s4, acc) for s4, _ in self.pair(E, s3, o2, x)]
                    elif hist == "other point":
                        y = param(E, s1, "y", (fx,), u["x"])
                        ref += [(s2, acc) for s2, _ in self.pair(E, s1, o, y)]
                    elif hist == "same array":
                        # the array had other values when it was passed before
                        param(E, s1, "y", (fx,), u["x"])
                        first = s1.heap["P:x"]
                        s1.heap["P:x"] = s1.heap["P:y"]
                        for s2, _ in self.pair(E, s1, o, x):
                            s2.heap["P:x"] = first
                            ref.append((s2, acc))
                    else:
                        ref.append((s1, acc))
                ref = [(s2, acc + (v,)) for s1, acc in ref for s2, v in E.call_value(s1, o, [x], {}, NODE)]
                for s1, acc in ref:
                    for s2, v in self.value(E, s1, o, x):
                        for s3, p in self.pair(E, s2, o, x):
                            res.append((s3, V("tuple", items=acc + (v, p))))
            return res
        return go

    def value(self, E, st, o, x):
        out = []
        for s2, m in E.getattr(st, o, "f_grad", NODE):
            out += E.call_value(s2, m, [x], {"return_gradient": vbool(False)}, NODE)
        return out

    def pair(self, E, st, o, x):
        out = []
        for s2, m in E.getattr(st, o, "f_grad", NODE):
            out += E.call_value(s2, m, [x], {}, NODE)
        return out

    def setup(self, E, run):
        self.m = run.meta

    def on_branch(self, E, st, node, d):
        # one path for every combination of outcomes
        if not d.get("forced") and not E.loops:
            st.ts["path:%d:%d" % (node.lineno, node.col_offset)] = d["pol"]

    def finish(self, E, run, out):
        cls, icpt = run.meta["cls"], run.meta["icpt"]
        where, fn = self.place(E, cls)
        for st, v in out:
            if v.kind != "tuple" or v.items is None:
                continue
            *vals, pr = v.items
            names = ["f(x)"] + (["f(x) after another evaluation"] if run.meta["hist"] else []) + ["f_grad(x, return_gradient=False)"]
            self.obligation( "the three ways to evaluate %s give one value" % cls)
            self.sites.add(("one value on every path", where, fn))
            got = list(zip(names, vals))
            if pr.kind == "tuple" and pr.items is not None:
                if len(pr.items) != 2:
                    self.report_at(where, fn, "no-pair", "%s: f_grad(x) returns %d values instead of the value and the gradient" % (cls, len(pr.items)))
                    continue
                got.append(("f_grad(x)[0]", pr.items[0]))
                self.flat(E, st, where, fn, cls, icpt, pr.items[1])
            elif pr.kind in ("num", "arr"):
                self.report_at(where, fn, "no-pair", "%s: f_grad(x) returns %s instead of the value and the gradient" % (cls, pr.kind))
                continue
            ts = []
            for n, x in got:
                if x.kind == "none":
                    self.report_at(where, fn, "not-scalar", "%s: %s returns None" % (cls, n))
                elif x.kind == "tuple":
                    self.report_at(where, fn, "not-scalar", "%s: %s returns a tuple" % (cls, n))
                elif x.kind == "arr":
                    ax = E.c(st, x).axes
                    if ax is not None and len(ax) >= 1:
                        self.report_at(where, fn, "not-scalar", "%s: %s is an array with axes (%s), not a scalar" % (cls, n, ",".join(map(str, ax))))
                ts.append((n, E.term_of(st, x) if x.kind in ("num", "arr") else None))
            n0, t0 = ts[0]
            for n, t in ts[1:]:
                if t is None or t0 is None:
                    continue
                if self.linked(st, t0, t):
                    continue
                r = verdict(t0, t)
                if r == "different":
                    d = T.poly_to_term(T._padd(T.poly(norm(t)), T.poly(norm(t0)), -1))
                    self.report_at(where, fn, "differ", "%s: %s and %s differ by %s" % (cls, n0, n, T.show(d, 6)[:160]))
                elif r is None:
                    E.note("the value terms could not be compared")

    def linked(self, st, a, b):
        """the path assumes that the two points are the same"""
        ys = [T.sym("y"), T.sym("A2"), T.sym("b2")]
        for t, pol in st.facts.items():
            if t.op != "is" and any(T.contains(t, lambda s, y=y: s is y) for y in ys):
                return True
        return False

    def flat(self, E, st, where, fn, cls, icpt, g):
        if g.kind not in ("arr", "num", "none", "sp", "tuple"):
            return
        if g.kind != "arr":
            return self.report_at(where, fn, "gradient-shape", "%s: the gradient is %s, not an array" % (cls, {"num": "a number", "none": "None", "sp": "a sparse matrix", "tuple": "a tuple"}[g.kind]))
        ax = E.c(st, g).axes
        if ax is None:
            return
        want = ("F+1",) if icpt else ("F",)
        if len(ax) != 1:
            return self.report_at(where, fn, "gradient-shape", "%s: the gradient has %d dimensions" % (cls, len(ax)))
        if icpt and ax[0] == "F" or not icpt and ax[0] in ("F+1", "S"):
            self.report_at(where, fn, "gradient-shape", "%s: the gradient has %s entries and the point has %s" % (cls, ax[0], want[0]))

    def place(self, E, cls):
        m = E.prog.modules["copt.loss"]
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef) and n.name == cls:
                for k in n.body:
                    if isinstance(k, ast.FunctionDef) and k.name == "f_grad":
                        n = k
                        break
                return "copt/loss.py:%d" % n.lineno, cls + ".f_grad"
        return "copt/loss.py", cls

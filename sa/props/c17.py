from ..framework import Prop
from .. import runs as R, terms as T
from ..values import INF
from ..lib import cont

LIMIT = {"exp": 709.0, "expm1": 709.0, "exp2": 1023.0, "sinh": 709.0, "cosh": 709.0}


def margin(t):
    """(atom, scale, shift) when t = scale * atom + shift for one atom that is free to take any finite value, else None."""
    k, c = 1.0, 0.0
    while True:
        if t.op == "neg":
            k, t = -k, t.args[0]
            continue
        if t.op == "load":
            t = t.args[0]
            continue
        p = T.poly(t)
        if len(p) == 1:
            (m, q), = p.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0] is not t:
                k, t = k * float(q), m[0][0]
                continue
        if len(p) == 2 and () in p:
            (m, q), = [(m, q) for m, q in p.items() if m != ()]
            if len(m) == 1 and m[0][1] == 1:
                c += k * float(p[()])
                k, t = k * float(q), m[0][0]
                continue
        break
    return t, k, c


def free(t):
    """Does the term range over the whole line? Symbols, products with the data and sums of such do."""
    t, k, c = margin(t)
    if t.op in ("sym", "mv"):
        return True
    if t.op == "call":
        return False
    p = T.poly(t)
    return len(p) > 1 and all(len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("sym", "mv", "load") for m in p if m)


class Check(Prop):
    id = "C17"
    technique = "interval analysis of the arguments of the exponentials and logarithms under masks and branches; evaluation of the masks of each case distinction over the whole line"
    rule = """In the logistic loss, its gradient, Hessian and scalar derivative: the argument of an exponential is bounded above by a constant
    for which it does not overflow, and the argument of a logarithm is bounded away from zero, on the entries selected by the masks or
    branches in force. The masks under which the parts of one array are stored cover the whole line, including infinitely large
    margins, and every path of one iteration of an element-wise loop stores its element."""

    def runs(self):
        return [r for r in R.losses() if r.meta["cls"] == "LogLoss" and r.meta["what"] not in ("lipschitz", "max_lipschitz")]

    def setup(self, E, run):
        self.run = run
        self.E = E
        self.parts = {}
        self.loops = {}

    # ------------------------------------------------------------ ranges
    def on_transc(self, E, st, node, d):
        if not E.recording:
            return
        name, v, r = d["name"], d["v"], d["rng"]
        if name in LIMIT:
            self.obligation("the argument of %s is bounded above" % name, E, node)
            hi = INF if r is None else r[1]
            if name == "cosh" and r is not None:
                hi = max(abs(r[0]), abs(r[1]))
            if hi <= LIMIT[name]:
                return
            if v.term is None or not free(v.term):
                E.note("C17: range of the argument of %s not known (line %d)" % (name, node.lineno))
                return
            if self.tested(st, v.term):
                E.note("C17: argument of %s restricted by a test that is not understood (line %d)" % (name, node.lineno))
                return
            self.report(E, node, "overflow", "%s() is taken of %s, which is not bounded above: it overflows for a large margin"
                        % (name, T.show(v.term, 4)), name)
        elif name in ("log", "log1p", "log2", "log10"):
            self.obligation("the argument of a logarithm is positive", E, node)
            lo = -1 if name == "log1p" else 0
            if r is not None and r[0] <= lo and not (r[1] == INF and self.tested(st, v.term)):
                self.report(E, node, "log-zero", "%s() is taken of a value that can be %s: the result is infinite for some finite margin" % (name, lo), name)

    def tested(self, st, t):
        """Is the atom of t restricted by something that the interval does not show?"""
        at = margin(t)[0]
        x = t
        while x.op == "neg":
            x = x.args[0]
        while x.op == "load":
            for i in x.args[1:]:
                if i.op in ("mask", "sel", "store", "where") and not self.plain(i, at):
                    return True
            x = x.args[0]
        for f in st.facts:
            for z in f if isinstance(f, tuple) else (f,):
                if isinstance(z, T.Term) and z is not at and z.op == "call" and T.contains(z, lambda y: y is at):
                    return True
        return False

    def plain(self, t, at):
        """A mask built of comparisons of the atom itself with constants."""
        if t.op in ("mask", "and", "or", "not"):
            return all(self.plain(a, at) for a in t.args if isinstance(a, T.Term))
        if t.op in ("lt", "le", "cmp", "eq"):
            return all(a.op == "const" or margin(a)[0] is at or margin(a)[0] is margin(at)[0] for a in t.args if isinstance(a, T.Term))
        return False

    # ------------------------------------------------------------ cases
    def on_store(self, E, st, node, d):
        if d["aug"]:
            return
        for o in d["ref"].objs:
            k = (st.stack[-1] if st.stack else "", o)
            if d["mask"] is not None:
                self.parts.setdefault(k, {"masks": {}, "whole": False, "node": node})["masks"].setdefault(d["mask"].term, d["mask"])
            elif not d["scalar"]:
                self.parts.setdefault(k, {"masks": {}, "whole": False, "node": node})["whole"] = True
            else:
                i = d["index"]
                if i.term is not None and "loopvar" in i.term.op + str(i.term.args[:1]):
                    st.ts["stored"] = True

    def on_body_start(self, E, st, node, d):
        if self.run.meta["what"] == "deriv" and d["lid"].count(":L") == 1:
            st.ts["stored"] = False

    def on_body_end(self, E, st, node, d):
        if self.run.meta["what"] == "deriv" and d["lid"].count(":L") == 1:
            self.loops.setdefault((st.stack[-1], node.lineno), (node, set()))[1].add(bool(st.ts.get("stored")))
            st.ts["stored"] = None

    def finish(self, E, run, results=[]):
        E.recording = True
        for (fn, line), (node, seen) in self.loops.items():
            self.obligation("every path of one iteration stores its element", E, node)
            if seen == {True, False}:
                self.report(E, node, "gap", "on some path of an iteration no value is stored: the derivative at such a margin is left undefined", "loop")
        for (fn, o), p in self.parts.items():
            if p["whole"] or not p["masks"]:
                continue
            self.obligation("the cases cover the whole line", E, p["node"])
            ms = list(p["masks"].values())
            leaves = []
            if not all(self.leaves(m, leaves) for m in ms):
                E.note("C17: cases not understood (line %d)" % p["node"].lineno)
                continue
            xs = {a for a, _ in leaves}
            if len(xs) != 1:
                E.note("C17: cases on different quantities (line %d)" % p["node"].lineno)
                continue
            cs = sorted({c for _, c in leaves})
            pts = [-INF] + [z for i, c in enumerate(cs) for z in (([c - 1e6] if i == 0 else [(cs[i - 1] + c) / 2]) + [c])] + [cs[-1] + 1e6, INF]
            for z in pts:
                if not any(self.value(m, z) for m in ms):
                    self.report(E, p["node"], "gap", "no case covers a margin of %s: the corresponding entries are never computed" % (
                        z if abs(z) < 1e5 else "%s %s" % (("below", cs[0]) if z < 0 else ("above", cs[-1]))), "mask")
                    break

    def leaf(self, ex):
        op, a, b = ex["cmp"]
        if op not in ("lt", "le"):
            return None
        ra, rb = a.rng, b.rng
        if a.known if hasattr(a, "known") else False:
            ra = (a.const, a.const)
        if b.known:
            rb = (b.const, b.const)
        for x, r, s in ((a, rb, 1), (b, ra, -1)):
            if r is None or r[0] != r[1] or x.term is None or x.term.op == "const":
                continue
            at, k, c = margin(x.term)
            if at.op == "call" or k == 0:
                continue
            return at, (r[0] - c) / k, op, s * (1 if k > 0 else -1)
        return None

    def leaves(self, m, out):
        ex = m.extra if isinstance(m.extra, dict) else {}
        if "not" in ex:
            return self.leaves(ex["not"], out)
        for k in ("and", "or"):
            if k in ex:
                return all([self.leaves(z, out) for z in ex[k]])
        if "cmp" in ex:
            l = self.leaf(ex)
            if l is not None:
                out.append(l[:2])
                return True
        return False

    def value(self, m, z):
        ex = m.extra
        if "not" in ex:
            return not self.value(ex["not"], z)
        if "and" in ex:
            return all(self.value(y, z) for y in ex["and"])
        if "or" in ex:
            return any(self.value(y, z) for y in ex["or"])
        _, c, op, s = self.leaf(ex)
        return (z < c if op == "lt" else z <= c) if s == 1 else (z > c if op == "lt" else z >= c)

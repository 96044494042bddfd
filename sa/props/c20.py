from ..solver import *
from .. import linear as LN
from .. import ops as O

PW = "lmo_pairwise"


class Check(Prop):
    id = "C20"
    technique = "symbolic dataflow: normal form of the direction returned by each linear minimization oracle"
    rule = """The direction returned by every oracle of the library is put into polynomial normal form. An oracle's direction plus the point
    (for the pairwise oracle the direction itself) does not mention the point; every other term of it is the radius of the set, to the
    first power, times a unit-magnitude sign and a unit vector or a pair of singular vectors computed from the given direction vector;
    the selected coordinate maximises the quantity the set requires (|u| for the L1 ball, u for the simplex) and the sign is the sign of
    that coordinate; for the simplex there is no sign. The pairwise oracle removes the vertex of the active set that minimises the inner
    product with the direction."""

    def runs(self):
        out = []
        for cls, ms in R.CONSTRAINTS:
            for m in ms:
                if m.startswith("lmo"):
                    for dt in ("f", "i"):
                        out.append(R._r("%s.%s[x %s]" % (cls, m, dt), O.constraint(cls, m, xdt=dt), cls=cls, what=m))
        return out

    def setup(self, E, run):
        self.run = run
        self.cls, self.what = run.meta["cls"], run.meta["what"]
        self.entry = None

    def on_enter(self, E, st, node, d):
        if d["fn"].name == self.what and self.entry is None:
            self.entry = d["fn"]

    def where(self, E):
        f = self.entry
        if f is None:
            return "copt/constraint.py", self.what
        n = getattr(f, "node", None)
        return ("%s:%s" % ("copt/constraint.py", getattr(n, "lineno", 0)) if n is not None else "copt/constraint.py"), "%s.%s" % (self.cls, self.what)

    def bad(self, E, rule, msg):
        w, fn = self.where(E)
        self.report_at(w, fn, rule, msg)

    def on_select(self, E, st, node, d):
        if self.what != PW or not E.recording or d["key"] is None or d["key"].term is None:
            return
        p = T.poly(d["key"].term)
        if len(p) != 1:
            return E.note("unrecognised key", node)
        (m, c), = p.items()
        load = [t for t, e in m if t.op == "load"]
        rest = {t.args[0] for t, e in m if t.op == "sym"}
        if len(m) == 2 and len(load) == 1 and rest == {"v_sign"}:
            self.obligation("the away vertex minimises the inner product with the direction", E, node)
            su = self.linear_u(load[0].args[0])
            if su is not None and (su * c > 0) != (d["how"] == "min"):
                self.report(E, node, "away", "the vertex to move away from is selected by %s of %s" % (d["how"], T.show(d["key"].term, 4)))

    def linear_u(self, t):
        """sign of k when t is k*u"""
        p = T.poly(t)
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][0] is T.sym("u") and m[0][1] == 1:
                return 1 if c > 0 else -1
        return None

    def abs_u(self, t):
        """sign of k when t is k*|u| or an increasing function of it"""
        p = T.poly(t)
        if len(p) != 1:
            return None
        (m, c), = p.items()
        if len(m) != 1:
            return None
        a, e = m[0]
        if a is T.sym("u"):
            return (1 if c > 0 else -1) if e == 2 else None
        if e > 0 and a.op == "call" and a.args[0] in ("abs", "numpy.abs", "numpy.absolute", "numpy.fabs") or a.op == "abs":
            if self.linear_u(a.args[-1]) is not None:
                return 1 if c > 0 else -1
        return None

    def finish(self, E, run, results):
        X, U, AL = T.sym("x"), T.sym("u"), T.sym("alpha")
        for st, v in results:
            its = E.items_of(st, v)
            if not its:
                E.note("result is not a tuple", None)
                continue
            c = L.cont(E, st, its[0]) if its[0].kind == "arr" else None
            if c is None or c.term is None:
                E.note("unknown direction", None)
                continue
            D = T.poly(c.term)
            self.obligation("direction plus point is independent of the point")
            V_ = LN.padd(D, T.poly(X)) if self.what == "lmo" else D
            self.obligation("every term is the radius times a vertex")
            for m, k in V_.items():
                ts = [t for t, _ in m]
                if any(T.contains(t, lambda z: z is X) for t in ts):
                    self.bad(E, "point", "the direction %s the point is %s, which depends on the point" % (
                        "plus" if self.what == "lmo" else "without", LN.show(V_)))
                    break
                if any(T.contains(t, lambda z: z.op in ("phi", "fresh", "unk", "loopvar")) for t in ts):
                    E.note("merged vertex", None)
                    continue
                self.vertex(E, dict(m), k)

    def vertex(self, E, m, k):
        AL = T.sym("alpha")
        if m.get(AL) != 1:
            return self.bad(E, "radius", "the term %s of the vertex is not proportional to the radius" % LN.show({tuple(m.items()): k}))
        if abs(k) != 1:
            return self.bad(E, "radius", "the vertex is %s times the radius" % k)
        rest = {t: e for t, e in m.items() if t is not AL}
        uv = [t for t in rest if t.op == "unitvec"]
        if len(uv) != 1 or rest[uv[0]] != 1:
            if self.cls == "TraceBall":
                self.singular(E, rest, k)
            return
        idx = uv[0].args[0]
        signs = [t for t in rest if t is not uv[0]]
        if self.what == PW and idx is T.sym("v_idx"):
            self.obligation("the away vertex is removed")
            if k != -1 or signs != [T.sym("v_sign")]:
                self.bad(E, "away-sign", "the away vertex enters with %s" % LN.show({tuple(m.items()): k}))
            return
        if self.what == PW and T.contains(idx, lambda z: z.op == "sym" and str(z.args[0]).startswith("v_")):
            return
        # the selected coordinate
        how = arg = None
        if idx.op == "call" and idx.args[0] in ("numpy.argmax", "argmax", "numpy.argmin", "argmin"):
            how, arg = idx.args[0].split(".")[-1], idx.args[1]
        elif idx.op in ("argmax", "argmin"):
            how, arg = idx.op, idx.args[0]
        if how is None:
            return E.note("unrecognised selection", None)
        self.obligation("the vertex maximises the inner product")
        lin, ab = self.linear_u(arg), self.abs_u(arg)
        if not T.contains(arg, lambda z: z is T.sym("u")):
            return self.bad(E, "selection", "the vertex is selected from %s, not from the direction vector" % T.show(arg, 4))
        simplex = self.cls == "SimplexConstraint"
        good = lin if simplex else ab
        other = ab if simplex else lin
        if good is None and other is None:
            return E.note("unrecognised selection", None)
        if good is None or (good > 0) != (how == "argmax"):
            return self.bad(E, "selection", "the vertex is selected by %s of %s" % (how, T.show(arg, 4)))
        if simplex:
            if signs or k < 0:
                self.bad(E, "sign", "a vertex of the simplex is non-negative, this one is %s" % LN.show({tuple(m.items()): k}))
            return
        if len(signs) != 1:
            if not signs:
                self.bad(E, "sign", "the sign of the vertex does not depend on the direction vector")
            return
        s = signs[0]
        if s.op == "sign" or s.op == "call" and s.args[0] in ("numpy.sign", "sign"):
            return self.bad(E, "sign", "the vertex is multiplied with sign(u), which is zero for a zero coordinate")
        if s.op == "copysign" or s.op == "call" and s.args[0] in ("numpy.copysign", "copysign", "math.copysign"):
            a = [z for z in s.args if isinstance(z, T.Term)]
            mag, src = T.poly(a[0]), T.poly(a[1])
            if abs(mag.get((), 0)) != 1 and len(mag) <= 1 and (not mag or () in mag):
                self.bad(E, "radius", "the sign of the vertex has magnitude %s" % LN.show(mag))
            if len(src) == 1:
                (sm, sc), = src.items()
                if len(sm) == 1 and sm[0][0].op == "load":
                    l = sm[0][0]
                    su = self.linear_u(l.args[0])
                    if su is not None and T.equal(l.args[1], idx) and su * sc * k < 0:
                        self.bad(E, "sign", "the vertex has the opposite sign of the selected coordinate")
                    elif su is not None and not T.equal(l.args[1], idx):
                        self.bad(E, "sign", "the sign is that of another coordinate than the selected one")

    def singular(self, E, rest, k):
        rest = list(rest)
        if len(rest) != 1:
            return E.note("unrecognised vertex", None)
        self.obligation("the vertex pairs the leading singular vectors")
        sv = [z for z in T.subterms(rest[0]) if z.op == "call" and z.args[0] in ("u", "vt") or z.op in ("svd_u", "svd_vt")]
        if k < 0:
            self.bad(E, "sign", "the vertex is minus the product of the leading singular vectors")

    def on_libcall(self, E, st, node, d):
        if d["name"].split(".")[-1] == "svds" and E.recording:
            self.obligation("the leading singular pair is requested", E, node)
            w = d["kwargs"].get("which")
            if w is not None and w.known and w.const != "LM":
                self.report(E, node, "selection", "singular vectors are selected by which=%r" % w.const)
            kk = d["kwargs"].get("k")
            a = d["args"][0] if d["args"] else None
            if a is not None and a.kind == "arr":
                t = E.term_of(st, a)
                if t is not None and not T.contains(t, lambda z: z is T.sym("u")) and T.contains(t, lambda z: z is T.sym("x")):
                    self.report(E, node, "selection", "the vertex is selected from the point, not from the direction vector")

from ..solver import *
from .. import linear as LN

Z, ACC = "$z", "$acc"


class Check(SolverProp):
    id = "C11"
    technique = "symbolic dataflow: the base point of every gradient used in a step, along every path of the deterministic solvers"
    rule = """At every oracle call with a gradient of the objective in its argument: the direction given to the linear oracle is minus the
    gradient at the very point given to it, and that point is the point an earlier step was computed from plus a multiple of that step's
    direction; a proximal step minus its gradient (and adjoint) terms is the point the gradient was taken at; in three operator splitting
    the gradient is taken at the last result of prox_2. At every line-search test comparing two objective values, the gradients in the test
    are those of the reference point, and the inner product is taken with the displacement to the candidate; the candidate of the last
    test that accepted is the point the next step starts from."""

    def runs(self):
        cb = {"callback": NONE}
        return tested_runs(True, callback=cb) + [
            R._r("minimize_proximal_gradient[fixed]", prox_grad(step="fixed", extra=cb), "pgd", solver="pgd")]

    def setup(self, E, run):
        self.run = run
        self.solver = run.meta["solver"]
        self.fid = None

    # ghost variables, merged at joins together with the program's own
    def put(self, st, k, term):
        v = UNBOUND if term is None else V("arr", term=term)
        for f in st.frames.values():
            if "$z" in f:
                f[k] = v

    def get(self, st, k):
        for f in st.frames.values():
            if "$z" in f:
                v = f[k]
                return v.term if v.kind == "arr" else None

    def on_enter(self, E, st, node, d):
        if self.fid is None and d["fn"].name.startswith("minimize_"):
            self.fid = d["fid"]
        if d["fid"] == self.fid:
            st.frames[self.fid][Z] = UNBOUND
            st.frames[self.fid][ACC] = UNBOUND

    def on_user(self, E, st, node, d):
        if d["role"] == "lmo":
            self.lmo(E, st, node, d)
        elif d["role"] == "prox" and d["x"] is not None:
            self.prox(E, st, node, d)

    def lmo(self, E, st, node, d):
        u, x = E.term_of(st, d["u"]), E.term_of(st, d["x"])
        if u is None or x is None:
            return E.note("unknown oracle arguments", node)
        pu, px = T.poly(u), T.poly(x)
        if E.recording:
            for m, c in pu.items():
                if len(m) == 1 and LN.is_grad(m[0][0]) and len(pu) == 1:
                    self.obligation("the direction is the negative gradient at the point", E, node)
                    if c >= 0 or m[0][1] != 1:
                        self.report(E, node, "sign", "the oracle is given %s times the gradient" % c)
                    self.base(E, node, LN.point(m[0][0]), px, "the oracle is called")
                    break
            else:
                E.note("unknown direction", node)
            vs = LN.vectors(px) or {}
            for a, c in vs.items():
                if a.op == "user" and a.args[0] == "lmo":
                    self.obligation("a step starts from the point its direction was computed at", E, node)
                    rest = {m: k for m, k in px.items() if not any(t is a for t, _ in m)}
                    if not opaque_only(rest) and LN.minus(rest, T.poly(a.args[2])):
                        self.report(E, node, "step-base", "a direction computed at %s is added to %s" % (T.show(a.args[2], 3), LN.show(rest)))
        self.accepted(E, st, node, px)

    def prox(self, E, st, node, d):
        X = E.term_of(st, d["x"])
        which = d["which"]
        if X is None:
            return E.note("unknown point", node)
        p = T.poly(X)
        vs = LN.vectors(p)
        if vs is None:
            return E.note("the point is not a linear combination of vectors", node)
        tos, pd = self.solver == "tos", self.solver == "pdhg"
        if tos and which == "prox_2":
            acc = self.get(st, ACC)
            if acc is not None and E.recording:
                self.obligation("the accepted candidate is the point used", E, node)
                pa = T.poly(acc)
                if len(pa) == 1:
                    (m, c), = pa.items()
                    if c == 1 and len(m) == 1 and m[0][0].op == "user":
                        k = vs.get(m[0][0])
                        if k != {(): 1}:
                            self.report(E, node, "not-accepted", "the line search accepted %s, but prox_2 is called at %s" % (
                                T.show(acc, 3), LN.show(p)))
            self.put(st, ACC, None)
            return
        grads = [a for a in vs if LN.is_grad(a)]
        if pd and which == "prox_2":
            return
        if E.recording:
            for a in grads:
                self.obligation("the gradient is that of the point", E, node)
            if tos:
                z = self.get(st, Z)
                for a in grads:
                    if z is not None:
                        self.base(E, node, LN.point(a), T.poly(z), "prox_1 is called")
            elif grads:
                rest = {m: c for m, c in p.items() if not any(LN.is_grad(t) or (pd and LN.is_adjoint(t)) for t, _ in m)}
                for a in grads:
                    self.base(E, node, LN.point(a), rest, "the prox is called")
            else:
                E.note("no recognisable gradient", node)
        if not tos and grads:
            rest = {m: c for m, c in p.items() if not any(LN.is_grad(t) or (pd and LN.is_adjoint(t)) for t, _ in m)}
            self.accepted(E, st, node, rest)
        else:
            self.put(st, ACC, None)

    def base(self, E, node, p, q, what):
        if LN.minus(p, q):
            self.report(E, node, "stale", "%s at %s with the gradient taken at %s" % (what, LN.show(q), LN.show(p)))

    def accepted(self, E, st, node, here):
        acc = self.get(st, ACC)
        if acc is not None and E.recording:
            self.obligation("the accepted candidate is the point used", E, node)
            if LN.minus(T.poly(acc), here):
                self.report(E, node, "not-accepted", "the line search accepted %s, but the next step starts from %s" % (T.show(acc, 3), LN.show(here)))
        self.put(st, ACC, None)

    def after_user(self, E, st, node, d, t):
        pass

    def on_prox_result(self, E, st, node, d):
        if d["which"] == "prox_2":
            self.put(st, Z, d["term"])

    # ---- line searches
    def literal(self, E, st, node, op, a, b):
        if op not in ("lt", "le") or len(E.loops) < 2:
            return
        D = LN.minus(T.poly(a), T.poly(b))          # D <= 0
        fs = {}
        for m, c in D.items():
            for t, e in m:
                if LN.is_f(t):
                    if e != 1 or t in fs and False:
                        return
                    fs.setdefault(t, {})
                    fs[t][tuple(z for z in m if z[0] is not t)] = c
        if len(fs) != 2:
            return
        (f1, k1), (f2, k2) = fs.items()
        if T._padd(k1, k2):
            return
        # which of the two is the candidate: the one whose coefficient is positive when the test accepts
        g = set()
        coef = {}
        for m, c in D.items():
            for t, e in m:
                for x, v in LN.inner(t):
                    g.add(x)
                    coef.setdefault(x, []).append((v, tuple(z for z in m if z[0] is not t), c))
                if LN.is_grad(t):
                    return
        pos = [f for f, k in fs.items() if all(c > 0 for c in k.values())]
        neg = [f for f, k in fs.items() if all(c < 0 for c in k.values())]
        if len(pos) != 1 or len(neg) != 1:
            return
        pos, neg = pos[0], neg[0]
        pp, pn = LN.point(pos), LN.point(neg)
        # the candidate depends on the reference point through a step
        cand = self.candidate(pp, pn, [LN.point(x) for x in g])
        if cand is None:
            return
        c, r = (pos, neg) if cand == "pos" else (neg, pos)
        if E.recording and g:
            self.obligation("the test uses the gradient at the reference point", E, node)
            for x in g:
                if LN.minus(LN.point(x), LN.point(r)):
                    self.report(E, node, "model-gradient", "the line-search test compares the objective at %s with a model built at %s from the gradient at %s" % (
                        T.show(c.args[1], 3), T.show(r.args[1], 3), T.show(x.args[1], 3)))
                    break
            else:
                self.displacement(E, node, fs[c], coef, LN.point(c), LN.point(r))
        if cand == "pos":
            raw = [t for s in (a, b) for t in T.subterms(s) if LN.is_f(t) and T._canon(t) is c]
            self.put(st, ACC, (raw or [c])[0].args[1])
        else:
            self.put(st, ACC, None)

    def candidate(self, pp, pn, at):
        """the point that was computed from the other one, or by a step with a gradient used in the test"""
        d = LN.minus(pp, pn)
        if not d:
            return None
        def depends(p, q):
            """p contains a step computed from the gradient at q"""
            for m in p:
                for t, _ in m:
                    if T.contains(t, lambda z: LN.is_grad(z) and not LN.minus(LN.point(z), q)):
                        return True
            return False
        a, b = depends(pp, pn), depends(pn, pp)
        if a and not b:
            return "pos"
        if b and not a:
            return "neg"
        a, b = [any(depends(x, q) for q in at) for x in (pp, pn)]
        return "pos" if a and not b else "neg" if b and not a else None

    def displacement(self, E, node, k, coef, c, r):
        """sum of the vectors multiplied with the gradient is a positive multiple of -(candidate - reference)"""
        if len(k) != 1:
            return
        (km, kc), = k.items()
        inv = {tuple((t, -e) for t, e in km): 1 / kc}
        tot = {}
        for g, lst in coef.items():
            for v, m, cc in lst:
                tot = T._padd(tot, T._pmul(T._pmul({m: cc}, inv), v))
        want = LN.minus(r, c)
        self.obligation("the model is evaluated at the displacement to the candidate", E, node)
        if not want or not tot:
            return
        m0 = next(iter(want))
        if m0 in tot:
            q = tot[m0] / want[m0]
            if q > 0 and tot == {m: x * q for m, x in want.items()}:
                return
        if any(t.op in ("fresh", "unk", "old") for p in (tot, want) for m in p for t, _ in m):
            return
        self.report(E, node, "displacement", "the line-search test multiplies the gradient with %s, but the candidate is at displacement %s" % (
            LN.show(T._padd({}, tot, -1)), LN.show(LN.minus(c, r))))


def opaque_only(p):
    return not p

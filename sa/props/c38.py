import ast
from fractions import Fraction
from ..solver import *
from .. import linear as LN


class Check(SolverProp):
    id = "C38"
    technique = "polynomial identity: the loop-exit condition of every line search against the quadratic upper bound"
    rule = """Where a loop is left on a comparison of f(P) with f(Z), P being the trial point (a proximal step from Z, or Z moved along a
    search direction), the comparison is rewritten as D >= 0. D must equal f(Z) - f(P) + <grad f(Z), P - Z> + c |P - Z|^2 as a polynomial over
    evaluations and inner products, up to floating-point constants; c times the step size handed to the operator is a positive constant of
    at most one half (for search directions: c |P - Z|^2 is at most half of -<grad f(Z), P - Z> when the step comes from the estimate);
    and the loop is left on D >= 0, not on its negation. Terms merged beyond recognition give no verdict."""

    def runs(self):
        cb = {"callback": NONE}
        return [r for r in tested_runs(True, callback=cb) if r.meta["solver"] in ("pgd", "tos", "fw") and ("trace" not in r.name)]

    def setup(self, E, run):
        self.run = run
        self.solver = run.name.split("[")[0]
        T.ARMS.clear()

    def on_branch(self, E, st, node, d):
        if not E.recording or not d["pol"] or d["v"].kind != "num" or d["v"].term is None:
            return
        leave = leaves_loop(node)
        if leave is None:
            return
        lits = list(implied(d["v"].term, True))
        if len(lits) != 1:
            return
        op, a, b = lits[0]
        if op not in ("lt", "le"):
            return
        D = expand(LN.minus(T.poly(b), T.poly(a)))
        fs = [(m[0][0], c) for m, c in D.items() if len(m) == 1 and m[0][1] == 1 and LN.is_f(m[0][0])]
        if len(fs) != 2 or fs[0][1] != -fs[1][1]:
            return
        self.judge(E, st, node, D, fs, leave)

    def judge(self, E, st, node, D, fs, leave):
        trial = None
        for (P, k), (Z, _) in (fs, fs[::-1]):
            if is_prox_point(P) and not (is_prox_point(Z) and built_from(Z, P)):
                trial = (P, k, Z) if trial is None else False
        line = False
        if trial is None:
            # moved along a direction: the point with more vectors
            for (P, k), (Z, _) in (fs, fs[::-1]):
                p = LN.vectors(LN.minus(LN.point(P), LN.point(Z)))
                if p and len(p) == 1 and len(LN.point(P)) > len(LN.point(Z)):
                    (a, c), = p.items()
                    if a.op == "user" and a.args[0] == "lmo":
                        trial, line = (P, k, Z), True
        if not trial:
            return E.note("C38: trial point not resolved")
        P, k, Z = trial
        if k > 0:
            D = {m: -c for m, c in D.items()}
        D = {m: c / abs(k) for m, c in D.items()}
        accept = k < 0      # the condition being true means D >= 0
        self.obligation("the line search stops on the quadratic upper bound", E, node)
        if leave != accept:
            return self.report(E, node, "negated", "the search ends when the sufficient decrease test fails", func=self.solver)
        D = {m: c for m, c in D.items() if not numeric(m)}
        p, z = LN.point(P), LN.point(Z)
        diff = LN.minus(p, z)
        if line:
            return self.line(E, node, D, P, Z, diff)
        if grad_at(D, Z) is None:
            if opaque_dots(D, p, z, None):
                return E.note("C38: gradient not resolved")
            return self.report(E, node, "gradient", "the test does not contain the inner product of the gradient at the point the step starts from", func=self.solver)
        M = T._padd(T._padd(T.atom(Z), T.atom(P), -1), inner(grad_at(D, Z), diff))
        R = {m: c for m, c in LN.minus(D, M).items() if not numeric(m)}
        Q = inner_poly(diff, diff)
        if opaque_dots(R, p, z, grad_at(D, Z)):
            return E.note("C38: terms not resolved")
        pv = [t for t in LN.vectors(p) or {}]
        if len(pv) != 1:
            return E.note("C38: trial point not resolved")
        pp = T._dot_mono(((pv[0], 1),), ((pv[0], 1),))
        (pm, pc), = pp.items()
        c = {}
        for m, v in R.items():
            e = dict(m)
            if all(e.get(t) == x for t, x in pm):
                for t, x in pm:
                    del e[t]
                c[tuple(sorted(e.items(), key=lambda q: (id(q[0]), q[1])))] = v / pc
        if LN.minus(R, T._pmul(c, Q)):
            return self.report(E, node, "other", "the test is not the quadratic upper bound: besides f(Z) - f(P) + <g, P - Z> it contains %s" % LN.show(R, 3)[:200], func=self.solver)
        S = pv[0].args[2] if len(pv[0].args) > 2 else None
        if S is None:
            return
        cs = T._pmul(c, T.poly(S))
        if not cs or list(cs) == [()]:
            v = cs.get((), 0)
            if v <= 0 or v > 0.5 + 1e-12:
                self.report(E, node, "loose", "the quadratic term of the test has %s / step size instead of at most 1 / (2 step size)" % v, func=self.solver)
        else:
            v = LN.value(T.poly_to_term(cs), lambda z: Fraction(1, 2) if z.args[0] == "backtracking_factor" else None)
            if v is None:
                E.note("C38: step of the test not resolved")
            elif v <= 0 or v > 0.5 + 1e-12:
                self.report(E, node, "loose", "the quadratic term of the test has (%s) / step size instead of at most 1 / (2 step size)" % LN.show(cs), func=self.solver)

    def line(self, E, node, D, P, Z, diff):
        """A step along a direction: values merged from two cases are taken apart."""
        ds = [t for t in phis(D) if T.ARMS.get(t.args[0])]
        ss = [t for t in phis(diff) if t not in ds and T.ARMS.get(t.args[0])]
        if len(ds) + len(ss) > 4:
            return E.note("C38: too many cases")
        steps = set()
        for s in phis(diff):
            steps |= set(T.ARMS.get(s.args[0], ()))
        for da in assignments(ds):
            out = [self.case(put(D, {**da, **sa}), P, Z, put(diff, {**da, **sa}), [T.poly(s) for s in steps]) for sa in assignments(ss)]
            if True in out:
                continue
            bad = [r for r in out if r]
            if bad:
                self.report(E, node, *bad[0], func=self.solver)
            else:
                E.note("C38: line search not resolved")

    def case(self, D, P, Z, diff, steps):
        """True: the bound; None: not decided; otherwise what is wrong"""
        g = grad_at(D, Z)
        if g is None:
            return None       # belongs to another iteration, or not resolved
        R = LN.minus(LN.minus(D, T._padd(T.atom(Z), T.atom(P), -1)), inner(g, diff))
        slope, Q = inner(g, diff), inner_poly(diff, diff)
        if not R:
            return "other", "the test has no quadratic term"
        if len(R) != 1 or len(slope) != 1 or len(Q) != 1:
            return None
        r = quotient(R, slope)
        if list(r) == [()]:
            r = -r[()]
            if r <= 0 or r > 0.5 + 1e-12:
                return "loose", "the test asks for a decrease of %s times the predicted one" % (1 - r)
            return True
        c = quotient(R, Q)
        if any(T.kindof(t) == "a" for m in c for t, _ in m):
            return None
        (m, _), = diff.items()
        s0 = {tuple(z for z in m if T.kindof(z[0]) == "s"): 1}
        worst = []
        for s in steps:
            if len(s) == 1:
                v = quotient(T._pmul(T._pmul(c, s), quotient(Q, T._pmul(s0, s0))), quotient(slope, s0))
                if list(v) == [()]:
                    worst.append(-v[()])
        if worst and not any(0 < v <= 0.5 + 1e-12 for v in worst):
            return "loose", "the quadratic term of the test is %s times the one the step size was computed from" % (2 * min(worst))
        return True


def atoms(m):
    for t, _ in m:
        yield t
        if t.op in ("dot", "sum"):
            for a in t.args:
                if isinstance(a, T.Term):
                    for mm in T.poly(a):
                        for x, _ in mm:
                            yield x


def quotient(p, q):
    (m, c), = q.items()
    return T._pmul(p, {tuple((t, -e) for t, e in m): Fraction(1) / c})


def phis(p):
    return [t for t in dict.fromkeys(t for m in p for t, _ in m) if t.op == "phi" and T.kindof(t) != "a"]


def assignments(ts):
    out = [{}]
    for t in ts:
        out = [{**o, t: a} for o in out for a in sorted(T.ARMS[t.args[0]], key=lambda a: T.show(a, 4))]
    return out


def put(p, env):
    r = {}
    for m, c in p.items():
        q = {(): c}
        for t, e in m:
            if t in env:
                v = T.poly(env[t])
                if e == int(e) and 0 < e <= 3:
                    for _ in range(int(e)):
                        q = T._pmul(q, v)
                    continue
                if len(v) == 1:
                    (mv, cv), = v.items()
                    q = T._pmul(q, {tuple((x, k * e) for x, k in mv): cv ** int(e) if e == int(e) else 1})
                    continue
            q = T._pmul(q, {((t, e),): 1})
        r = T._padd(r, q)
    return r


def expand(D):
    """squares of norms written out"""
    r = {}
    for m, c in D.items():
        q = {(): c}
        for t, e in m:
            if t.op == "poly" and e == 1:
                q = T._pmul(q, T.poly(t))
            else:
                q = T._pmul(q, {((t, e),): 1})
        r = T._padd(r, q)
    return r


def grad_at(D, Z):
    for m in D:
        for t in atoms(m):
            if LN.is_grad(t) and T.equal(t.args[1], Z.args[1]):
                return t
    return None


def inner(g, v):
    return inner_poly(T.atom(g), v) if g is not None else {}


def inner_poly(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            s = tuple(z for z in m1 + m2 if T.kindof(z[0]) == "s")
            a1 = tuple(z for z in m1 if T.kindof(z[0]) != "s")
            a2 = tuple(z for z in m2 if T.kindof(z[0]) != "s")
            q = {(): c1 * c2}
            for z in s:
                q = T._pmul(q, {(z,): 1})
            r = T._padd(r, T._pmul(q, T._dot_mono(a1, a2)))
    return r


def numeric(m):
    return all(t.op in ("const", "finfo") or t.op == "sym" and str(t.args[0]).isupper() for t, _ in m)


def is_prox_point(t):
    p = LN.point(t)
    if len(p) != 1:
        return False
    (m, c), = p.items()
    return c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "user" and m[0][0].args[0] in ("prox", "prox_1", "prox_2")


def built_from(Z, P):
    """Z is computed from P: Z is the later point"""
    q = LN.point(P)
    (m, _), = q.items()
    return T.contains(Z.args[1], lambda s: s is m[0][0])


def opaque_dots(D, p, z, g):
    """an inner product in D has a factor that is neither the points nor the gradient nor an evaluation"""
    ok = set(LN.vectors(p) or ()) | set(LN.vectors(z) or ())
    for m in D:
        for t in atoms(m):
            if t in ok or t is g or T.kindof(t) == "s" and t.op not in ("phi", "fresh", "loopvar", "unk", "old"):
                continue
            if T.kindof(t) == "s" and any(x is t for x, _ in m):
                continue      # a scalar factor
            if t.op == "user":
                continue
            return True
    return False


def leaves_loop(node):
    """True/False: the branch (polarity) on which the enclosing loop is left; None when it is not such a test."""
    n, neg = node, False
    while n is not None and not isinstance(n, (ast.If, ast.stmt)):
        p = getattr(n, "_parent", None)
        if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not):
            neg = not neg
        elif not isinstance(p, (ast.If, ast.NamedExpr)):
            return None
        n = p
    if not isinstance(n, ast.If):
        return None
    p = getattr(n, "_parent", None)
    while p is not None and not isinstance(p, (ast.For, ast.While, ast.FunctionDef)):
        p = getattr(p, "_parent", None)
    if not isinstance(p, (ast.For, ast.While)):
        return None
    out = lambda b: bool(b) and isinstance(b[-1], (ast.Break, ast.Return))
    x, y = out(n.body), out(n.orelse)
    return None if x == y else x != neg

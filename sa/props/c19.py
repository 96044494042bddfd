from fractions import Fraction
from itertools import product
from ..framework import Prop
from .. import runs as R, terms as T, linear as LN
from ..solver import implied

LEAF = ("phi", "fresh", "loopvar", "old", "unk")
ZERO, ONE_ = T.const(0), T.const(1)


def num(t):
    return T._num(t.args[0]) if T.is_const(t) else None


def named(t, *names):
    return t.op == "call" and str(t.args[0]).split(".")[-1] in names


def is_dir(t):
    return t.op == "user" and t.args[0] == "lmo"


def is_limit(t):
    return t.op == "user" and t.args[0] == "max_step"


def neg(r):
    return None if r is None else r


def both(*rs):
    """conjunction of True, False (not so for some values) and None (not known)"""
    if all(r is True for r in rs):
        return True
    if any(r is None for r in rs):
        return None
    return False


def either(*rs):
    if any(r is True for r in rs):
        return True
    if any(r is None for r in rs):
        return None
    return False


class Bounds:
    """Lower and upper bounds of a scalar term under the facts of a path."""

    def __init__(self, E, st):
        self.E, self.st = E, st
        self.le = []
        for t, pol in st.facts.items():
            for op, a, b in implied(t, pol):
                if op in ("lt", "le"):
                    self.le.append((a, b))
                elif op == "eq":
                    self.le += [(a, b), (b, a)]

    def rng(self, t):
        """range known for the value of a variable with this term"""
        r = self.st.rngs.get(t)
        lo, hi = (r if r is not None else (float("-inf"), float("inf")))
        for fr in self.st.frames.values():
            for n, v in fr.items():
                if getattr(v, "kind", None) == "num" and v.term is not None and (v.term is t or T.equal(v.term, t)):
                    q = self.E.rng(self.st, v)
                    if q is not None:
                        lo, hi = max(lo, q[0]), min(hi, q[1])
        return lo, hi

    def offset(self, t):
        """lower bound of t from a variable whose value is t plus a constant"""
        lo = float("-inf")
        for fr in self.st.frames.values():
            for n, v in fr.items():
                if getattr(v, "kind", None) == "num" and v.term is not None and v.term.op in ("add", "sub"):
                    d = T._padd(T.poly(v.term), T.poly(t), -1)
                    if len(d) == 1 and () in d:
                        q = self.E.rng(self.st, v)
                        if q is not None and q[0] != float("-inf"):
                            lo = max(lo, q[0] - float(d[()]))
        return lo

    def known(self, a, b, depth):
        """a path fact a <= b, directly or through one more fact"""
        for x, y in self.le:
            if T.equal(x, a) and (T.equal(y, b) or depth > 0 and self.known(y, b, depth - 1)):
                return True
        return False

    # ------------------------------------------------------------ sign
    def nonneg(self, t, depth=0):
        if depth > 40:
            return None
        d = depth + 1
        n = num(t)
        if n is not None:
            return n >= 0
        if t.op in ("dot",) and len(t.args) == 2 and T.equal(t.args[0], t.args[1]):
            return True
        if is_limit(t) or t.op in ("abs", "norm", "exp") or named(t, "abs", "norm", "sqrt", "exp", "len"):
            return True
        lo, hi = self.rng(t)
        if lo >= 0:
            return True
        if t.op == "sym":
            return True if str(t.args[0]).startswith("#") or t.args[0] in ("tol", "lipschitz") else None
        for x, y in self.le:
            if T.equal(y, t) and x is not t and self.nonneg_plain(x):
                return True
        if t.op in ("mul", "div"):
            a, b = t.args
            if T.equal(a, b):
                return True
            return both(self.nonneg(a, d), self.nonneg(b, d))
        if t.op == "add":
            return both(self.nonneg(t.args[0], d), self.nonneg(t.args[1], d))
        if t.op == "pow":
            e = num(t.args[1])
            if e is not None and e.denominator == 1 and e % 2 == 0:
                return True
            return self.nonneg(t.args[0], d)
        if named(t, "max", "maximum"):
            return either(*[self.nonneg(a, d) for a in t.args[1:] if isinstance(a, T.Term)])
        if named(t, "min", "minimum"):
            return both(*[self.nonneg(a, d) for a in t.args[1:] if isinstance(a, T.Term)])
        if named(t, "clip") and len(t.args) == 4:
            return both(self.nonneg(t.args[2], d), self.nonneg(t.args[3], d))
        if named(t, "float", "float64", "asarray", "item") and len(t.args) == 2:
            return self.nonneg(t.args[1], d)
        if t.op == "sum" or t.op == "load":
            p = t.args[0]
            if p.op in ("pow", "mul") or p.op == "call":
                return self.nonneg(p, d) if p.op != "mul" or not T.equal(p.args[0], p.args[1]) else True
        if t.op == "neg":
            n = num(t.args[0])
            return False if self.nonneg(t.args[0], d) is True or t.args[0].op == "dot" else None
        if t.op == "dot":
            return False
        if t.op == "sub":
            return None
        return None

    def nonneg_plain(self, t):
        n = num(t)
        if n is not None:
            return n >= 0
        if t.op == "sym":
            return t.args[0] in ("tol", "lipschitz") or self.rng(t)[0] >= 0
        return is_limit(t)

    # ------------------------------------------------------------ upper bound
    def below(self, t, m, depth=0):
        """t <= m, for m >= 0"""
        if depth > 40:
            return None
        d = depth + 1
        if T.equal(t, m):
            return True
        n, k = num(t), num(m)
        if n is not None and k is not None:
            return n <= k
        if n is not None and n <= 0:
            return True
        if k is not None and self.rng(t)[1] <= k:
            return True
        if self.known(t, m, 1):
            return True
        if named(t, "min", "minimum"):
            return either(*[self.below(a, m, d) for a in t.args[1:] if isinstance(a, T.Term)])
        if named(t, "max", "maximum"):
            return both(*[self.below(a, m, d) for a in t.args[1:] if isinstance(a, T.Term)])
        if named(t, "clip") and len(t.args) == 4:
            return either(self.below(t.args[3], m, d), both(self.below(t.args[1], m, d), self.below(t.args[2], m, d)))
        if named(t, "float", "float64", "asarray", "item") and len(t.args) == 2:
            return self.below(t.args[1], m, d)
        if t.op == "mul":
            for a, b in (t.args, t.args[::-1]):
                if self.below(a, m, d) is True and self.below(b, ONE_, d) is True and self.nonneg(a, d) is True:
                    return True
            return self.unbounded(t)
        if t.op == "div":
            if self.below(t.args[0], m, d) is True and self.known(ONE_, t.args[1], 1):
                return True
            return self.unbounded(t)
        if t.op in LEAF:
            return None
        if t.op in ("user", "sym", "dot", "add", "sub", "pow", "const", "sum", "load"):
            return False
        return None

    def unbounded(self, t):
        """a product or quotient of quantities of the problem has no bound; with other values in it nothing is known"""
        for f in factors(t):
            if num(f) is not None:
                continue
            if f.op in ("phi", "old", "fresh", "loopvar"):
                continue          # another free factor
            if f.op in ("user", "sym", "dot", "pow", "norm", "sum", "load", "neg", "abs"):
                continue
            return None
        return False if any(f.op in ("dot", "sym", "sum") for f in factors(t)) else None


def factors(t):
    if t.op in ("mul", "div"):
        return factors(t.args[0]) + factors(t.args[1])
    return [t]


def step_of(t, direction):
    """the scalar that multiplies the direction in a sum, as it is written; None when it cannot be read off"""
    if t is direction:
        return ONE_
    if t.op == "add":
        a, b = [step_of(x, direction) for x in t.args]
        if a is ZERO or a is None:
            return b if a is ZERO else None
        return a if b is ZERO else None
    if t.op == "sub":
        b = step_of(t.args[1], direction)
        return step_of(t.args[0], direction) if b is ZERO else None
    if t.op in ("mul", "div"):
        a, b = t.args
        for x, y in ((a, b), (b, a)) if t.op == "mul" else ((a, b),):
            s = step_of(x, direction)
            if s is not None and s is not ZERO:
                return (y if s is ONE_ else T.mk("mul", s, y)) if t.op == "mul" else T.mk("div", s, y)
        return ZERO if not T.contains(t, lambda z: z is direction) else None
    if not T.contains(t, lambda z: z is direction) or is_dir(t) or t.op in LEAF:
        return ZERO
    return None


class Check(Prop):
    id = "C19"
    technique = "bounds of the step of every Frank-Wolfe update, proved from the path condition and the form of its term (intervals, min/max, sign of polynomials)"
    rule = """Wherever the iterate becomes x + s*d with d the direction of the oracle at x, the term s is at least zero, and at most the maximum
    step the oracle returned with d; for the steps that depend on the iteration count only, at most one. The facts of the path (the test
    against the tolerance, the comparison with the maximum step) count; a quotient of problem quantities that no test or minimum bounds is
    reported."""

    def runs(self):
        return [R._r(r.name, r.build) for r in R.solvers() + R.stochastic() if r.name.startswith(("minimize_frank_wolfe", "minimize_sfw"))
                and "callable" not in r.name]

    def setup(self, E, run):
        self.fn = run.name.split("[")[0]
        self.seen = 0
        self.oblivious = not any(k in run.name for k in ("backtracking", "DR", "jac"))

    def on_branch(self, E, st, node, d):
        # the outcome of a comparison that involves the direction or the maximum step is kept on the path
        t = d["v"].term
        if t is not None and not d.get("forced") and T.contains(t, lambda z: is_limit(z) or is_dir(z)):
            st.ts["limit:%d:%d" % (node.lineno, node.col_offset)] = d["pol"]

    def on_user(self, E, st, node, d):
        if d.get("role") == "lmo":
            for k in [k for k in st.ts if k.startswith("limit:")]:
                del st.ts[k]

    def on_mutate(self, E, st, node, d):
        c = d.get("content")
        if E.recording and c is not None and getattr(c, "kind", None) == "arr":
            self.update(E, st, node, E.term_of(st, c), True)

    def on_bind(self, E, st, node, d):
        if E.recording and d["v"].kind == "arr":
            t = E.term_of(st, d["v"])
            if any(c.kind == "arr" and o not in d["v"].objs and c.v is not None and c.v.term is t for o, c in st.heap.items()):
                return                      # a copy
            self.update(E, st, node, E.term_of(st, d["v"]), False)

    def update(self, E, st, node, t, inplace):
        if t is None or t.op not in ("add", "sub"):
            return
        p = LN.vectors(T.poly(t))
        if p is None:
            return
        for v in p:
            if not is_dir(v):
                continue
            dirs = [z for z in T.subterms(t) if is_dir(z) and T.equal(z, v)]
            # only the increment: other directions of earlier iterations are part of the current point
            for z in dirs:
                s = step_of(t, z)
                if s is None or s is ZERO or not T.equal(t, T.mk("add", z.args[2], T.mk("mul", s, z))):
                    continue
                if num(s) is not None and not inplace:
                    continue
                self.check(E, st, node, s, z)
                break

    def check(self, E, st, node, s, z):
        B = Bounds(E, st)
        limit = T.mk("user", "max_step", *z.args[1:])
        self.seen += 1
        self.obligation("step of an update within its bounds", E, node)
        lo = B.nonneg(s)
        if lo is not True:
            r = self.rational(E, st, s, -1)
            lo = r if r is not None else lo
        if self.oblivious:
            hi = B.below(s, ONE_)
            if hi is not True:
                r = self.rational(E, st, s, 1)
                hi = r if r is not None else hi
            if hi is not True:
                h2 = B.below(s, limit)
                hi = True if h2 is True else hi
        else:
            hi = B.below(s, limit)
        if lo is False:
            self.report(E, node, "negative", "the step %s of the update can be negative" % T.show(s, 5)[:160], func=self.fn)
        if hi is False:
            self.report(E, node, "too-long", "the step %s of the update is not bounded by %s" % (
                T.show(s, 5)[:160], "one" if self.oblivious else "the maximum step of the oracle"), func=self.fn)
        if lo is None:
            E.note("the lower bound of the step is not decided")
        if hi is None:
            E.note("the upper bound of the step is not decided")

    # ------------------------------------------------------------ counters
    def rational(self, E, st, s, side):
        """Sign of s (side -1) or of 1 - s (side 1) for a quotient of polynomials in counters: the coefficients after moving every
        variable to its lower bound prove it, exact values of the quotient refute it."""
        q = quotient(s)
        if q is None:
            return None
        n, dn = q
        if side > 0:
            n = T._padd(dn, n, -1)
        ratio = ratios(n, dn)
        if ratio is None:
            return None
        n, dn, var = ratio
        low = {}
        B = Bounds(E, st)
        for v in var:
            if v == "ratio" or v.op == "sym" and str(v.args[0]).startswith("#"):
                low[v] = 1
            else:
                lo = B.rng(v)[0]
                if lo == float("-inf"):
                    lo = B.offset(v)
                if lo == float("-inf"):
                    return None
                low[v] = int(lo)
        sn, sd = shift(n, low), shift(dn, low)
        if all(c >= 0 for c in sn.values()) and sd and all(c >= 0 for c in sd.values()):
            return True
        if len(var) > 3:
            return None
        for vals in product((0, 1, 2, 3, 7, 50), repeat=len(var)):
            env = dict(zip(var, vals))
            a, b = value(sn, env), value(sd, env)
            if b != 0 and a / b < 0:
                return False
        return None


def quotient(t):
    """(numerator, denominator) polynomials"""
    if t.op == "div":
        a, b = quotient(t.args[0]), quotient(t.args[1])
        return None if a is None or b is None else (T._pmul(a[0], b[1]), T._pmul(a[1], b[0]))
    if t.op == "mul":
        a, b = quotient(t.args[0]), quotient(t.args[1])
        return None if a is None or b is None else (T._pmul(a[0], b[0]), T._pmul(a[1], b[1]))
    if t.op in ("add", "sub"):
        a, b = quotient(t.args[0]), quotient(t.args[1])
        if a is None or b is None:
            return None
        return T._padd(T._pmul(a[0], b[1]), T._pmul(b[0], a[1]), 1 if t.op == "add" else -1), T._pmul(a[1], b[1])
    if t.op == "neg":
        a = quotient(t.args[0])
        return None if a is None else (T._padd({}, a[0], -1), a[1])
    n = num(t)
    if n is not None:
        return ({(): n} if n else {}), {(): Fraction(1)}
    if t.op == "pow":
        e = num(t.args[1])
        b = quotient(t.args[0])
        if e is None or b is None or e.denominator != 1 or not 0 < e <= 4:
            return None
        r = b
        for _ in range(int(e) - 1):
            r = T._pmul(r[0], b[0]), T._pmul(r[1], b[1])
        return r
    if t.op in ("phi", "loopvar", "old") or t.op == "sym" and (str(t.args[0]).startswith("#") or t.args[0] in ("batch_size", "max_iter")):
        return T.atom(t), {(): Fraction(1)}
    return None


def ratios(n, d):
    """numerator and denominator over the variables, samples and batch size through their quotient, which is at least one"""
    S = [v for p in (n, d) for m in p for v, e in m if v.op == "sym" and v.args[0] == "#S"]
    Bt = [v for p in (n, d) for m in p for v, e in m if v.op == "sym" and v.args[0] == "batch_size"]
    var = []
    if S and Bt:
        s, b = S[0], Bt[0]
        deg = max(e for p in (n, d) for m in p for v, e in m if v is b)
        out = []
        for p in (n, d):
            q = {}
            for m, c in p.items():
                k = dict(m)
                # multiplied by batch^-deg: every monomial must be homogeneous in samples and batch
                es, eb = k.pop(s, 0), k.pop(b, 0)
                if es + eb != deg:
                    return None
                k2 = tuple(sorted(list(k.items()) + ([("ratio", es)] if es else []), key=lambda z: (str(type(z[0])), id(z[0]))))
                q[k2] = q.get(k2, 0) + c
            out.append(q)
        n, d = out
    for p in (n, d):
        for m in p:
            for v, e in m:
                if e < 0 or Fraction(e).denominator != 1:
                    return None
                if v not in var:
                    var.append(v)
    return n, d, var


def shift(p, low):
    """the polynomial in v - low(v)"""
    out = {}
    for m, c in p.items():
        q = {(): Fraction(c)}
        for v, e in m:
            for _ in range(int(e)):
                r = {}
                for k, x in q.items():
                    kk = dict(k)
                    kk[v] = kk.get(v, 0) + 1
                    key = tuple(sorted(kk.items(), key=lambda z: (str(type(z[0])), id(z[0]))))
                    r[key] = r.get(key, 0) + x
                    if low[v]:
                        r[k] = r.get(k, 0) + x * low[v]
                q = r
        for k, x in q.items():
            out[k] = out.get(k, 0) + x
    return {k: x for k, x in out.items() if x}


def value(p, env):
    t = Fraction(0)
    for m, c in p.items():
        x = Fraction(c)
        for v, e in m:
            x *= Fraction(env[v]) ** int(e)
        t += x
    return t

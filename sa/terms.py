"""Hash-consed value terms (global value numbering), anti-unification, polynomial normal form."""
from fractions import Fraction

NO_LOOPS = frozenset()
KIND = {}          # leaf term -> 'a' (array) or 's' (scalar)


class Term:
    __slots__ = ("op", "args", "loops", "_key", "size")

    def __repr__(self):
        return show(self)


_table = {}


def mk(op, *args, loops=None):
    key = (op,) + tuple(("T", id(a)) if isinstance(a, Term) else ("V", type(a).__name__, a) for a in args) + ((("L",) + tuple(sorted(loops))) if loops else ())
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t._key = op, args, key
        ls = frozenset(loops or ())
        sz = 1
        for a in args:
            if isinstance(a, Term):
                ls = ls | a.loops
                sz += a.size
        t.loops = ls
        t.size = min(sz, 10 ** 9)
        _table[key] = t
    return t


def show(t, depth=6):
    if not isinstance(t, Term):
        return repr(t)
    if t.op == "const":
        return repr(t.args[0])
    if t.op == "sym":
        return str(t.args[0])
    if t.op in ("phi", "fresh", "loopvar", "old"):
        if t.op == "old":
            return "previous(" + show(t.args[0], depth - 1) + ")"
        if t.op == "phi":
            return "merged<" + str(t.args[0]).split("/")[-1] + ">"
        return t.op + "<" + str(t.args[0]).split("@")[0] + ">"
    if depth <= 0:
        return "..."
    inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "lt": "<", "le": "<=", "eq": "=="}
    if t.op in inf and len(t.args) == 2:
        return "(" + show(t.args[0], depth - 1) + " " + inf[t.op] + " " + show(t.args[1], depth - 1) + ")"
    if t.op == "user":
        return "%s(%s)" % (t.args[0], ", ".join(show(a, depth - 1) for a in t.args[1:]))
    if t.op == "item":
        return "%s[%s]" % (show(t.args[1], depth - 1), t.args[0])
    if t.op == "call":
        return "%s(%s)" % (str(t.args[0]).split(".")[-1], ", ".join(show(a, depth - 1) for a in t.args[1:]))
    return "%s(%s)" % (t.op, ", ".join(show(a, depth - 1) for a in t.args))


def const(v):
    try:
        hash(v)
    except TypeError:
        v = repr(v)
    return mk("const", v)


def sym(name):
    return mk("sym", name)


def is_const(t):
    return t.op == "const"


def subst_leaves(t, fn, memo, want):
    """rebuild t, replacing leaf symbols for which want(t) through fn."""
    if not want(t):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("phi", "fresh", "loopvar"):
        r = fn(t)
    else:
        na = tuple(subst_leaves(a, fn, memo, want) if isinstance(a, Term) else a for a in t.args)
        r = mk(t.op, *na)
    memo[t] = r
    return r


def age(t, loop, memo):
    """Values that belong to the previous iteration of `loop` get their own name."""
    if loop not in t.loops:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("phi", "fresh", "loopvar"):
        r = mk("old", mk(t.op, *t.args, loops=()), loop.__str__() if False else str(loop), loops=tuple(l for l in t.loops if l != loop))
    elif t.op == "old":
        r = mk("old", mk("old", *t.args), str(loop), loops=tuple(l for l in t.loops if l != loop))
    else:
        na = tuple(age(a, loop, memo) if isinstance(a, Term) else a for a in t.args)
        r = mk(t.op, *na)
    memo[t] = r
    return r


MAXSIZE = 4000
ARMS = {}       # name of a merged value -> the values that were merged (cleared by the checks that use it)


class AU:
    """Anti-unification of two value environments: equal pairs get equal names."""

    def __init__(self, joinid, loops):
        self.joinid, self.loops = joinid, tuple(loops)
        self.memo = {}
        self.names = {}
        self.slot = ""
        self.n = 0

    def __call__(self, a, b):
        if a is b:
            return a
        if a is None or b is None:
            return None
        k = (a, b)
        r = self.memo.get(k)
        if r is not None:
            return r
        if (a.op == b.op and a.op not in ("phi", "fresh", "loopvar", "old", "const", "sym") and len(a.args) == len(b.args)
                and a.size < MAXSIZE and b.size < MAXSIZE and self._same_head(a, b)):
            na = []
            for x, y in zip(a.args, b.args):
                if isinstance(x, Term):
                    na.append(self(x, y))
                else:
                    na.append(x)
            r = mk(a.op, *na)
        else:
            i = 0
            while True:
                name = "%s/%s" % (self.joinid, self.slot + ("" if i == 0 else "#%d" % i))
                if name not in self.names:
                    break
                i += 1
            self.names[name] = k
            ARMS.setdefault(name, set()).update(k)
            ka = kindof(a)
            if ka is not None and ka == kindof(b):
                r = mk("phi", name, ka, loops=self.loops)
            else:
                r = mk("phi", name, loops=self.loops)
        self.memo[k] = r
        return r

    @staticmethod
    def _same_head(a, b):
        for x, y in zip(a.args, b.args):
            if isinstance(x, Term) != isinstance(y, Term):
                return False
            if not isinstance(x, Term) and x != y:
                return False
        return True


# ---------------------------------------------------------------- polynomials
# poly: dict monomial -> Fraction/float coefficient; monomial: tuple sorted of (termkey, exp)
_poly_memo = {}


def _num(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return Fraction(v).limit_denominator(10 ** 12)
    return None


def _padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = {}
            for a, e in m1 + m2:
                d[a] = d.get(a, 0) + e
            m = tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda z: (id(z[0]), z[1])))
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def atom(t):
    return {((t, Fraction(1)),): Fraction(1)}


def poly(t):
    """Polynomial normal form over opaque atoms (commutative, element-wise)."""
    r = _poly_memo.get(t)
    if r is not None:
        return r
    o = t.op
    if o == "const":
        n = _num(t.args[0])
        r = atom(t) if n is None else ({(): n} if n != 0 else {})
    elif o == "add":
        r = _padd(poly(t.args[0]), poly(t.args[1]))
    elif o == "sub":
        r = _padd(poly(t.args[0]), poly(t.args[1]), -1)
    elif o == "neg":
        r = _padd({}, poly(t.args[0]), -1)
    elif o == "mul":
        a, b = poly(t.args[0]), poly(t.args[1])
        r = _pmul(a, b) if len(a) * len(b) <= 400 else atom(t)
    elif o == "div":
        a, b = poly(t.args[0]), poly(t.args[1])
        if len(b) == 1:
            (m, c), = b.items()
            inv = {tuple((x, -e) for x, e in m): Fraction(1) / c}
            r = _pmul(a, inv)
        else:
            # divide by an opaque sum
            r = _pmul(a, {((_canon(t.args[1]), Fraction(-1)),): Fraction(1)}) if b else atom(t)
    elif o == "pow":
        e = poly(t.args[1])
        if len(e) == 1 and () in e and e[()].denominator == 1 and 0 < e[()] <= 4:
            b = poly(t.args[0])
            r = {(): Fraction(1)}
            for _ in range(int(e[()])):
                r = _pmul(r, b)
        elif len(e) == 1 and () in e:
            b = poly(t.args[0])
            if len(b) == 1:
                (m, c), = b.items()
                if c == 1:
                    r = {tuple((x, k * e[()]) for x, k in m): Fraction(1)}
                else:
                    r = atom(t)
            else:
                r = {((_canon(t.args[0]), e[()]),): Fraction(1)}
        else:
            r = atom(t)
    elif o == "poly":
        r = {}
        for i in range(0, len(t.args), 2):
            r = _padd(r, _pmul(poly(t.args[i]), {(): t.args[i + 1].args[0]}) if t.args[i + 1].args[0] else {})
    elif o == "onehot":
        v = poly(t.args[1])
        base = mk("unitvec", _canon(t.args[0]))
        r = _pmul(v, atom(base))
    elif o == "neg":
        r = _padd({}, poly(t.args[0]), -1)
    elif o == "old":
        # the previous iteration's value of an expression is the expression of previous values
        r = atom(_canon_args(t))
    elif o == "store" and len(t.args) == 3 and all(isinstance(z, Term) for z in t.args) and _is_index(t.args[1]):
        base, i = poly(t.args[0]), _canon(t.args[1])
        v = _padd(poly(t.args[2]), _load(base, i, "s"), -1) if base else poly(t.args[2])
        r = _padd(base, _pmul(v, atom(mk("unitvec", i))))
    elif o == "load" and len(t.args) == 2 and isinstance(t.args[0], Term) and isinstance(t.args[1], Term) and kindof(t) == "s" and _is_index(t.args[1]):
        r = _load(poly(t.args[0]), _canon(t.args[1]), "s")
    elif o == "sum":
        a = poly(t.args[0])
        r = {}
        for m, c in a.items():
            r = _padd(r, _pmul({(): c}, _sum_mono(m, t.args[1] if len(t.args) > 1 else None)))
    elif o == "mv":
        b = poly(t.args[1])
        A = _canon(t.args[0])
        r = {}
        for m, c in b.items():
            sc = tuple((x, e) for x, e in m if kindof(x) == "s")
            ar = tuple((x, e) for x, e in m if kindof(x) != "s")
            r = _padd(r, _pmul({sc: c}, atom(mk("mv", A, _mono_term(ar)))))
    elif o == "call" and t.args[0] in ("numpy.square",) and len(t.args) == 2:
        b = poly(t.args[1])
        r = _pmul(b, b)
    elif o == "dot":
        # bilinear: expand scalar coefficients
        a, b = poly(t.args[0]), poly(t.args[1])
        if len(a) * len(b) <= 100:
            r = {}
            for m1, c1 in a.items():
                for m2, c2 in b.items():
                    s1 = tuple(z for z in m1 if kindof(z[0]) == "s")
                    s2 = tuple(z for z in m2 if kindof(z[0]) == "s")
                    a1 = tuple(z for z in m1 if kindof(z[0]) != "s")
                    a2 = tuple(z for z in m2 if kindof(z[0]) != "s")
                    r = _padd(r, _pmul(_pmul({s1: c1}, {s2: c2}), _dot_mono(a1, a2)))
        else:
            r = atom(t)
    else:
        r = atom(_canon_args(t))
    _poly_memo[t] = r
    return r


def _is_index(t):
    return kindof(t) == "s" or t.op == "argmax" or t.op == "call" and t.args[0] in ("numpy.argmax", "numpy.argmin", "argmax", "argmin")


def _load(base, i, kind):
    """The component i of an element-wise polynomial."""
    r = {}
    for m, c in base.items():
        p = {(): c}
        for a, e in m:
            if kindof(a) == "s":
                f = {((a, e),): Fraction(1)}
            elif a.op == "unitvec" and a.args[0] is i:
                f = {(): Fraction(1)}
            else:
                l = mk("load", a, i)
                KIND.setdefault(l, kind)
                f = {((l, e),): Fraction(1)}
            p = _pmul(p, f)
        r = _padd(r, p)
    return r


def _dot_mono(a1, a2):
    """Inner product of two element-wise monomials, as a polynomial."""
    (m, _), = _pmul({a1: Fraction(1)}, {a2: Fraction(1)}).items()
    return _sum_mono(m, None)


def _sum_mono(m, size):
    """Sum over all components of an element-wise monomial: scalars come out, a product of two is an inner product."""
    sc = tuple((x, e) for x, e in m if kindof(x) == "s")
    ar = tuple((x, e) for x, e in m if kindof(x) != "s")
    if not ar:
        if size is not None:
            return _pmul({sc: Fraction(1)}, poly(size))
        return _pmul({sc: Fraction(1)}, atom(mk("sum", const(1))))
    if len(ar) == 1 and ar[0][1] == 2:
        d = mk("dot", ar[0][0], ar[0][0])
    elif len(ar) == 2 and ar[0][1] == 1 and ar[1][1] == 1:
        x, y = sorted((ar[0][0], ar[1][0]), key=id)
        d = mk("dot", x, y)
    elif len(ar) == 2 and {ar[0][1], ar[1][1]} == {1, -1} or len(ar) != 1:
        d = mk("sum", _mono_term(ar))
    elif ar[0][1] == 1:
        d = mk("sum", ar[0][0])
    else:
        d = mk("sum", _mono_term(ar))
    return _pmul({sc: Fraction(1)}, atom(d))


def _mono_term(m):
    r = None
    for a, e in sorted(m, key=lambda z: id(z[0])):
        x = a if e == 1 else mk("pow", a, const(e))
        r = x if r is None else mk("mul", r, x)
    return r if r is not None else const(1)


_kmemo = {}


def kindof(t):
    """'a' for array-valued, 's' for scalar-valued, None if not known."""
    k = KIND.get(t)
    if k is not None:
        return k
    if t.op == "const":
        return "s"
    if t.op == "phi" and len(t.args) > 1:
        return t.args[1]
    if t.op in ("dot", "sum", "size"):
        return "s"
    if t.op in ("mv", "unitvec", "onehot"):
        return "a"
    if t.op == "user":
        return "a" if t.args[0] in ("grad", "prox", "prox_1", "prox_2", "lmo") else "s" if t.args[0] in ("f", "max_step") else None
    if t.op == "old" and isinstance(t.args[0], Term):
        return kindof(t.args[0])
    if t.op == "sym" and str(t.args[0]).startswith("#"):
        return "s"
    if t.op in ("add", "sub", "mul", "div", "neg", "pow", "poly"):
        ks = [kindof(a) for a in t.args if isinstance(a, Term)]
        if "a" in ks:
            return "a"
        if all(k == "s" for k in ks):
            return "s"
    return None


_canon_memo = {}


def poly_to_term(p):
    items = []
    for m, c in p.items():
        t = _mono_term(m)
        items.append((t, c))
    items.sort(key=lambda z: id(z[0]))
    r = mk("poly", *[x for t, c in items for x in (t, const(c))])
    return r


def _canon(t):
    r = _canon_memo.get(t)
    if r is None:
        p = poly(t)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                r = m[0][0]
        if r is None:
            r = poly_to_term(p)
        _canon_memo[t] = r
    return r


def _canon_args(t):
    if not t.args or t.op in ("sym", "phi", "fresh", "loopvar", "old", "const", "poly", "unitvec"):
        return t
    na = []
    ch = False
    for a in t.args:
        if isinstance(a, Term):
            c = _canon(a)
            ch = ch or c is not a
            na.append(c)
        else:
            na.append(a)
    return mk(t.op, *na) if ch else t


def equal(a, b):
    """Equality as polynomials over opaque atoms."""
    if a is b:
        return True
    if a is None or b is None:
        return False
    return poly(a) == poly(b)


def contains(t, pred, seen=None):
    seen = seen if seen is not None else set()
    if t in seen:
        return False
    seen.add(t)
    if pred(t):
        return True
    return any(isinstance(a, Term) and contains(a, pred, seen) for a in t.args)


def subterms(t, seen=None):
    seen = seen if seen is not None else set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for a in t.args:
        if isinstance(a, Term):
            yield from subterms(a, seen)

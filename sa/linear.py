"""Points as linear combinations of vectors: poly -> {vector atom: scalar coefficient polynomial}."""
from . import terms as T


def vectors(p):
    """{vector atom: scalar poly} of a polynomial of kind 'a', or None when it is not linear in its vector atoms."""
    out = {}
    for m, c in p.items():
        vec = [(t, e) for t, e in m if T.kindof(t) == "a"]
        if len(vec) != 1 or vec[0][1] != 1:
            return None
        sc = tuple(z for z in m if z is not vec[0] and T.kindof(z[0]) != "a")
        d = out.setdefault(vec[0][0], {})
        d[sc] = d.get(sc, 0) + c
    return {a: {m: c for m, c in d.items() if c} for a, d in out.items()}


def is_grad(t):
    return t.op == "user" and t.args[0] == "grad"


def is_f(t):
    return t.op == "user" and t.args[0] == "f"


def is_adjoint(t):
    return t.op == "mv" and t.args[0].op == "tr"


def point(t):
    """Canonical point of a user evaluation."""
    return T.poly(t.args[1])


def minus(p, q):
    return T._padd(p, q, -1)


def padd(p, q):
    return T._padd(p, q)


def multiple(c, s):
    """every monomial of c contains the (single) monomial of s; None when s is not a monomial"""
    if len(s) != 1:
        return None
    (ms, _), = s.items()
    for m in c:
        d = dict(m)
        for t, e in ms:
            k = d.get(t)
            if k is None or (e > 0) != (k > 0) or abs(k) < abs(e):
                return False
    return True


def show(p, depth=3):
    if not p:
        return "0"
    out = []
    for m, c in list(p.items())[:4]:
        f = "*".join(T.show(t, depth) + ("" if e == 1 else "^%s" % e) for t, e in m)
        out.append(("%s*%s" % (c, f) if c != 1 else f) if f else str(c))
    return " + ".join(out) + (" + ..." if len(p) > 4 else "")


def inner(t):
    """(gradient, polynomial of the vector it is multiplied with) for the inner product t."""
    if t.op == "dot" and len(t.args) == 2:
        ps = [T.poly(a) for a in t.args]
    elif t.op == "sum" and len(t.args) >= 1:
        ps = [T.poly(t.args[0])]
    else:
        return
    if any(len(p) != 1 for p in ps):
        return
    mono, c = [], 1
    for p in ps:
        (m, k), = p.items()
        mono += m
        c *= k
    gs = [x for x, e in mono if is_grad(x)]
    if len(gs) == 1:
        rest = {(): c}
        for x, e in mono:
            if x is not gs[0]:
                rest = T._pmul(rest, {((x, e),): 1})
        yield gs[0], rest


def value(t, env):
    """Number a term stands for under an assignment of its symbols, or None when it has other parts."""
    tot = 0
    for m, c in T.poly(t).items():
        x = c
        for z, e in m:
            v = _atom(z, env)
            if v is None or v == 0 and e < 0:
                return None
            x = x * v ** e
        tot = tot + x
    return tot


def _atom(z, env):
    if z.op == "sym":
        return env(z)
    if z.op == "const":
        return z.args[0] if isinstance(z.args[0], (int, float)) else None
    args = [a for a in z.args if isinstance(a, T.Term)]
    if z.op == "call" and z.args[0] in ("min", "max") and len(args) == len(z.args) - 1:
        vs = [value(a, env) for a in args]
        return None if None in vs else (min if z.args[0] == "min" else max)(vs)
    if z.op == "floordiv" and len(args) == 2:
        a, b = (value(x, env) for x in args)
        return None if a is None or not b else a // b
    return None


def differ(a, b, envs):
    """Two terms provably stand for different numbers under one of the assignments (each must be possible)."""
    for env in envs:
        x, y = value(a, env), value(b, env)
        if x is not None and y is not None and x != y:
            return True
    return False

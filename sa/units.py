"""Units of measure: free abelian group with rational exponents, unification variables.

Special values: POLY (zero, inf, nan, absolute tolerances: any unit), TOP (unknown)."""
from fractions import Fraction

POLY, TOP = "*", "?"
ONE = ()


def U(**kw):
    return tuple(sorted((k, Fraction(v)) for k, v in kw.items() if v))


class Units:
    def __init__(self):
        self.sub = {}

    def norm(self, u):
        if u in (POLY, TOP):
            return u
        d = {}
        for b, e in u:
            if b in self.sub:
                for b2, e2 in self.norm(self.sub[b]):
                    d[b2] = d.get(b2, 0) + e * e2
            else:
                d[b] = d.get(b, 0) + e
        return tuple(sorted((b, e) for b, e in d.items() if e != 0))

    def mul(self, a, b):
        if a == TOP or b == TOP:
            return TOP
        if a == POLY or b == POLY:
            return POLY
        d = dict(a)
        for k, e in b:
            d[k] = d.get(k, 0) + e
        return self.norm(tuple(sorted((k, e) for k, e in d.items() if e != 0)))

    def pow(self, a, e):
        if a in (POLY, TOP):
            return a
        return self.norm(tuple((b, x * Fraction(e)) for b, x in a))

    def div(self, a, b):
        if b == TOP or a == TOP:
            return TOP
        if b == POLY:
            return POLY
        return self.mul(a, self.pow(b, -1))

    def unify(self, a, b):
        """True if they can be the same unit (binding variables)."""
        if a in (POLY, TOP) or b in (POLY, TOP):
            return True
        d = self.div(self.norm(a), self.norm(b))
        if d == ONE:
            return True
        vs = [(k, e) for k, e in d if k.startswith("?")]
        if not vs:
            return False
        v, e = vs[0]
        rest = tuple((k, -x / e) for k, x in d if k != v)
        self.sub[v] = rest
        return True

    def join(self, a, b):
        if a == POLY:
            return b
        if b == POLY:
            return a
        if a == TOP:
            return b
        if b == TOP:
            return a
        return a

    def show(self, u):
        if u in (POLY, TOP):
            return {"*": "any", "?": "unknown"}[u]
        u = self.norm(u)
        if not u:
            return "1"
        return "*".join(b if e == 1 else "%s^%s" % (b, e) for b, e in u)

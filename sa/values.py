"""Abstract values, heap cells and states."""
from . import terms as T
from .units import POLY, TOP, ONE

NOCONST = type("NoConst", (), {"__repr__": lambda s: "<noconst>"})()
NODEPS = frozenset()
NOOBJ = frozenset()
INF = float("inf")


class V:
    """One abstract value.  Arrays and other mutable values name heap objects in `objs`."""

    __slots__ = ("kind", "const", "term", "objs", "items", "fn", "unit", "dt", "axes", "idx", "rng", "deps", "fmt", "extra", "_k")

    def __init__(self, kind, const=NOCONST, term=None, objs=NOOBJ, items=None, fn=None, unit=TOP, dt=None, axes=None,
                 idx=None, rng=None, deps=NODEPS, fmt=None, extra=None):
        self.kind, self.const, self.term, self.objs, self.items, self.fn = kind, const, term, objs, items, fn
        self.unit, self.dt, self.axes, self.idx, self.rng, self.deps, self.fmt, self.extra = unit, dt, axes, idx, rng, deps, fmt, extra
        self._k = None

    def r(self, **kw):
        n = V(self.kind, self.const, self.term, self.objs, self.items, self.fn, self.unit, self.dt, self.axes, self.idx,
              self.rng, self.deps, self.fmt, self.extra)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def key(self):
        if self._k is None:
            c = self.const
            try:
                hash(c)
            except TypeError:
                c = repr(c)
            self._k = (self.kind, type(c).__name__, c if c == c else "nan", self.term, self.objs,
                       tuple(i.key() for i in self.items) if isinstance(self.items, tuple) else
                       (tuple((k, v.key()) for k, v in sorted(self.items.items())) if isinstance(self.items, dict) else self.items),
                       id(self.fn) if self.fn is not None and not isinstance(self.fn, (str, tuple)) else self.fn,
                       self.unit, self.dt, self.axes, self.idx, self.rng, self.deps, self.fmt, _hk(self.extra))
        return self._k

    @property
    def known(self):
        return self.const is not NOCONST

    def __repr__(self):
        s = self.kind
        if self.known:
            s += "=%r" % (self.const,)
        if self.objs:
            s += "@" + ",".join(sorted(self.objs))
        if self.term is not None:
            s += ":" + T.show(self.term, 3)
        if self.items is not None:
            s += repr(self.items)
        return "<" + s + ">"


def _hk(x):
    if isinstance(x, dict):
        return tuple(sorted((k, _hk(v)) for k, v in x.items()))
    if isinstance(x, V):
        return x.key()
    if isinstance(x, (list, tuple)):
        return tuple(_hk(i) for i in x)
    try:
        hash(x)
        return x
    except TypeError:
        return repr(x)


UNBOUND = V("unbound")
NONE = V("none", const=None, term=T.const(None))


def vbool(b, deps=NODEPS):
    return V("num", const=bool(b), term=T.const(bool(b)), unit=ONE, dt="b", rng=(int(b), int(b)), deps=deps)


def vstr(s=NOCONST, deps=NODEPS):
    return V("str", const=s, term=T.const(s) if s is not NOCONST else None, deps=deps)


def vany(deps=NODEPS):
    return V("any", deps=deps)


def num_unit(c):
    """Unit of a literal where it stands in an expression."""
    if c != c or c in (INF, -INF) or c == 0 or abs(c) < 1e-4:
        return POLY
    return ONE


def vnum(c, deps=NODEPS):
    if isinstance(c, bool):
        return vbool(c, deps)
    dt = "i" if isinstance(c, int) else "f"
    if isinstance(c, complex):
        return vany(deps)
    return V("num", const=c, term=T.const(c), unit=num_unit(c), dt=dt, rng=(c, c) if c == c else None, deps=deps)


class Cell:
    """Heap object.  kind: arr, sp, list, dict, inst, other."""

    __slots__ = ("kind", "v", "bases", "attrs", "items", "elem", "cls", "extra")

    def __init__(self, kind, v=None, bases=NOOBJ, attrs=None, items=None, elem=None, cls=None, extra=None):
        self.kind, self.v, self.bases, self.attrs, self.items, self.elem, self.cls, self.extra = kind, v, bases, attrs, items, elem, cls, extra

    def copy(self):
        return Cell(self.kind, self.v, self.bases, dict(self.attrs) if self.attrs is not None else None,
                    (list(self.items) if isinstance(self.items, list) else dict(self.items)) if self.items is not None else None,
                    self.elem, self.cls, self.extra)

    def key(self):
        it = self.items
        if isinstance(it, list):
            it = tuple(i.key() for i in it)
        elif isinstance(it, dict):
            it = tuple(sorted(((repr(k), v.key()) for k, v in it.items()), key=lambda z: z[0]))
        return (self.kind, self.v.key() if self.v is not None else None, self.bases,
                tuple(sorted((k, v.key()) for k, v in self.attrs.items())) if self.attrs is not None else None,
                it, self.elem.key() if self.elem is not None else None, id(self.cls), _hk(self.extra))


class State:
    __slots__ = ("frames", "stack", "heap", "facts", "rngs", "ts", "pc")

    def __init__(self):
        self.frames = {}
        self.stack = ()
        self.heap = {}
        self.facts = {}
        self.rngs = {}
        self.ts = {}
        self.pc = NODEPS

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.stack = self.stack
        s.heap = {k: c.copy() for k, c in self.heap.items()}
        s.facts = dict(self.facts)
        s.rngs = dict(self.rngs)
        s.ts = dict(self.ts)
        s.pc = self.pc
        return s

    def pkey(self):
        """Partition key: what keeps two abstract traces apart at a join."""
        k = [self.stack]
        for fid in self.stack + tuple(sorted(set(self.frames) - set(self.stack))):
            fr = self.frames[fid]
            for n in sorted(fr):
                v = fr[n]
                if v.kind == "unbound":
                    k.append((fid, n, "U"))
                elif v.kind == "none":
                    k.append((fid, n, "N"))
                elif v.kind == "num" and v.known and isinstance(v.const, bool):
                    k.append((fid, n, v.const))
                elif v.kind == "str" and v.known:
                    k.append((fid, n, v.const))
                elif v.kind == "tuple" and v.items is not None:
                    k.append((fid, n, "T%d" % len(v.items)))
        for o in sorted(self.heap):
            c = self.heap[o]
            if c.attrs:
                for n in sorted(c.attrs):
                    v = c.attrs[n]
                    if v.kind == "none":
                        k.append((o, n, "N"))
                    elif v.kind == "num" and v.known and isinstance(v.const, bool):
                        k.append((o, n, v.const))
        for n in sorted(self.ts):
            if not n.startswith("_"):
                k.append(("ts", n, self.ts[n]))
        return tuple(k)

    def fingerprint(self):
        return (self.stack,
                tuple((f, tuple((n, v.key()) for n, v in sorted(fr.items()))) for f, fr in sorted(self.frames.items())),
                tuple((o, c.key()) for o, c in sorted(self.heap.items())),
                frozenset(self.facts.items()), frozenset(self.rngs.items()),
                tuple(sorted((k, _hk(v)) for k, v in self.ts.items())), self.pc)

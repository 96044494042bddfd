"""Models of the operators, containers and library functions the repository uses."""
import ast
import importlib
import math

from . import terms as T
from .units import POLY, TOP, ONE
from .values import (V, Cell, UNBOUND, NONE, NOCONST, NODEPS, NOOBJ, INF, vbool, vstr, vany, vnum, num_unit)

BUILTINS = set(dir(__import__("builtins")))


# ---------------------------------------------------------------------------- basics
def fnv(name):
    return V("func", fn=("lib", name), term=T.mk("fn", name))


def builtin(name):
    if name in BUILTINS:
        if isinstance(getattr(__import__("builtins"), name), type) and issubclass(getattr(__import__("builtins"), name), BaseException):
            return V("func", fn=("lib", "builtins." + name), term=T.mk("fn", name), extra={"exc": True})
        return fnv("builtins." + name)
    return None


THIRD = {"numpy", "scipy", "sklearn", "os", "urllib", "tarfile", "hashlib", "warnings", "collections", "datetime", "functools",
         "bz2", "math", "itertools", "time", "random", "operator", "copy", "sys", "abc", "typing", "numbers", "shutil", "tempfile",
         "gzip", "io", "json", "re", "string", "struct", "zipfile", "pathlib", "contextlib", "errno", "logging", "threading"}
_modcache = {}


def _real(modname):
    """The installed module, for name resolution only (None when it is not installed here)."""
    if modname in _modcache:
        return _modcache[modname]
    m = None
    if modname.split(".")[0] in THIRD:
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m = importlib.import_module(modname)
        except Exception:
            m = False
    _modcache[modname] = m
    return m


CONSTS = {"numpy.inf": INF, "numpy.Inf": INF, "math.inf": INF, "numpy.nan": float("nan"), "math.nan": float("nan"),
          "numpy.pi": math.pi, "math.pi": math.pi, "numpy.e": math.e}
ALIAS = {"scipy.linalg.norm": "numpy.linalg.norm", "scipy.linalg.svd": "numpy.linalg.svd", "numpy.absolute": "numpy.abs",
         "numpy.fabs": "numpy.abs", "math.sqrt": "numpy.sqrt", "math.exp": "numpy.exp", "math.log": "numpy.log",
         "math.log1p": "numpy.log1p", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.vdot": "numpy.dot",
         "numpy.inner": "numpy.dot", "numpy.ma.array": "numpy.array", "numpy.negative": "numpy.negative",
         "numpy.minimum": "numpy.fmin", "numpy.maximum": "numpy.fmax", "numpy.random.mtrand.shuffle": "numpy.random.shuffle",
         "sklearn.utils.extmath.safe_sparse_dot": "safe_sparse_dot", "scipy.sparse._sputils.issparse": "scipy.sparse.issparse",
         "scipy.sparse.isspmatrix": "scipy.sparse.issparse", "numpy.row_stack": "numpy.vstack", "numpy.sum": "numpy.sum",
         "numpy.core.multiarray.dot": "numpy.dot", "math.fabs": "numpy.abs", "numpy.ndarray.max": "numpy.max",
         "scipy.sparse.csr_array": "scipy.sparse.csr_matrix", "numpy.subtract": "op.Sub", "numpy.add": "op.Add",
         "numpy.multiply": "op.Mult", "numpy.divide": "op.Div", "numpy.true_divide": "op.Div", "numpy.matmul": "op.MatMult",
         "numpy.power": "op.Pow", "numpy.less": "cmp.Lt", "numpy.greater": "cmp.Gt", "numpy.less_equal": "cmp.LtE",
         "numpy.greater_equal": "cmp.GtE", "numpy.equal": "cmp.Eq", "numpy.not_equal": "cmp.NotEq", "numpy.float_power": "op.Pow",
         "numpy.logical_and": "op.BitAnd", "numpy.logical_or": "op.BitOr", "math.pow": "op.Pow", "operator.add": "op.Add",
         "operator.sub": "op.Sub", "operator.mul": "op.Mult", "operator.truediv": "op.Div", "numpy.asanyarray": "numpy.asarray"}


def ext_attr(E, st, modname, name, node):
    full = modname + "." + name
    if full in ("numpy.newaxis",):
        return NONE
    if full in CONSTS:
        c = CONSTS[full]
        v = vnum(c)
        if full.endswith((".pi", ".e")):
            v = v.r(unit=ONE)
        return v
    m = _real(modname)
    if m is not None and m is not False:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ok = hasattr(m, name)
            if not ok:
                sub = _real(full)
                ok = sub not in (None, False)
        if not ok:
            E.emit("missing_attr", st, node, base=modname, name=name)
            E.throw(st, vany(), node)
            return vany()
        o = getattr(m, name, None)
        import types
        if isinstance(o, types.ModuleType):
            return E.modval(full)
        if isinstance(o, (bool, int, float)) and not callable(o):
            return vnum(o)
        if isinstance(o, str):
            return V("str", term=T.sym(full))
        if isinstance(o, type) and issubclass(o, BaseException):
            return V("func", fn=("lib", full), term=T.mk("fn", full), extra={"exc": True})
        if callable(o):
            return fnv(ALIAS.get(full, full))
        if full in ("os.environ",):
            return V("other", const="os.environ", term=T.sym("environ"))
        return V("any", term=T.sym(full))
    if m is False and modname.split(".")[0] in ("numpy", "scipy", "sklearn"):
        E.emit("missing_attr", st, node, base=modname.rsplit(".", 1)[0], name=modname.rsplit(".", 1)[-1])
        return vany()
    if full in ("tensorflow.compat.v1.io.gfile",):
        return E.modval(full)
    return fnv(ALIAS.get(full, full))


def one(st, v):
    return [(st, v)]


def arg(a, kw, i, name, default=None):
    if i is not None and i < len(a):
        return a[i]
    return kw.get(name, default)


def cont(E, st, v):
    """Content of a numeric argument: arrays through the heap, sequences as a whole."""
    if v.kind in ("arr", "sp"):
        return E.c(st, v)
    if v.kind in ("tuple", "list", "set"):
        its = E.items_of(st, v)
        if its is None:
            el = None
            for o in v.objs:
                c = st.heap.get(o)
                if c is not None and c.elem is not None:
                    el = cont(E, st, c.elem)
            if el is None:
                return V("arr", deps=v.deps, term=E.term_of(st, v), axes=None)
            return V("arr", unit=el.unit, dt=el.dt, deps=el.deps | v.deps, term=T.mk("seq", E.term_of(st, v)), rng=el.rng,
                     idx=el.idx, axes=None)
        if not its:
            return V("arr", deps=v.deps, term=T.mk("tuple"), axes=("0",), unit=POLY, dt="f", idx="0")
        cs = [cont(E, st, i) for i in its]
        r = cs[0]
        for x in cs[1:]:
            r = E.join_attr(r, x)
        ax = (str(len(its)),)
        if all(c.kind in ("arr",) for c in cs):
            ax = ax + tuple(cs[0].axes) if cs[0].axes is not None else None
        ts = [c.term if c.term is not None else E.term_of(st, c) for c in cs]
        return V("arr", None and 0 or NOCONST, T.mk("tuple", *ts), unit=r.unit, dt=r.dt, axes=ax, idx=r.idx, rng=r.rng,
                 deps=r.deps | v.deps)
    return v


def isarr(v):
    return v.kind in ("arr", "sp", "list", "tuple")


def tm(E, st, v):
    return E.term_of(st, v)


def unify(E, st, node, ua, ub, what):
    ok = E.units.unify(ua, ub)
    if not ok:
        E.emit("unit", st, node, a=E.units.norm(ua), b=E.units.norm(ub), what=what)
    return ok


def lit_unit(v):
    """Unit of an operand of a product: literals are pure numbers."""
    if v.kind == "num" and v.known and v.unit == POLY and v.const == v.const and v.const not in (0, INF, -INF):
        return ONE
    return v.unit


def dim_factor(E, axis):
    """Unit carried by adding up over an axis."""
    if E.dim_count and axis is not None and str(axis).split("|")[0] in ("S",):
        return (("N", 1),)
    return ONE


def size_unit(E, axis):
    """Unit of a number of elements: the size of a selection of samples is not the number of samples."""
    if E.dim_count and axis is not None and "|" in str(axis) and str(axis).split("|")[0] == "S":
        return (("N(selected)", 1),)
    return dim_factor(E, axis)


def size_val(E, axis):
    if axis is None:
        return V("num", term=None, dt="i", unit=ONE if not E.dim_count else TOP, rng=(0, INF))
    if isinstance(axis, str) and axis.isdigit():
        return vnum(int(axis))
    return V("num", term=size_term(axis), dt="i", unit=size_unit(E, axis), rng=(1 if axis in E.nonempty else 0, INF),
             extra={"size": axis})


def size_term(axis):
    axis = str(axis)
    if axis.isdigit():
        return T.const(int(axis))
    if axis.startswith("t:"):
        t = _axterm.get(axis)
        if t is not None:
            return t
    if "*" in axis and "|" not in axis:
        parts = axis.split("*")
        t = size_term(parts[0])
        for p in parts[1:]:
            t = T.mk("mul", t, size_term(p))
        return t
    for sgn in "+-":
        if sgn in axis[1:] and "|" not in axis and ":" not in axis:
            b, k = axis.rsplit(sgn, 1)
            if k.isdigit():
                return T.mk("add" if sgn == "+" else "sub", T.sym("#" + b), T.const(int(k)))
    return T.sym("#" + axis)


_axterm = {}
_axname = {}


def axis_of(E, st, v):
    """Axis name for an array dimension whose length is the number v."""
    if v.kind != "num":
        return None
    if v.known and isinstance(v.const, int):
        return str(v.const)
    if v.idx is not None and v.idx.startswith("n:"):
        return "N:" + v.idx[2:]
    t = v.term
    if t is None:
        return None
    p = T.poly(t)
    k = p.get((), 0)
    rest = [(m, c) for m, c in p.items() if m != ()]
    if len(rest) == 1 and rest[0][1] == 1:
        m = rest[0][0]
        names = []
        ok = True
        for a, e in m:
            if a.op == "sym" and str(a.args[0]).startswith("#") and e.denominator == 1 and e > 0:
                names += [str(a.args[0])[1:]] * int(e)
            else:
                ok = False
        if ok and getattr(k, "denominator", 1) == 1:
            if k == 0:
                return "*".join(sorted(names))
            if len(names) == 1:
                return "%s%s%d" % (names[0], "+" if k > 0 else "-", abs(k))
    ct = T._canon(t)
    nm = _axname.get(ct)
    if nm is None:
        nm = "t:%d" % len(_axname)
        _axname[ct] = nm
        _axterm[nm] = ct
    return nm


def base_axis(ax):
    """'F+1' -> ('F', 1)"""
    if ax is None:
        return None, 0
    ax = str(ax)
    if "|" not in ax and ":" not in ax and "*" not in ax:
        for s in "+-":
            if s in ax[1:]:
                b, k = ax.rsplit(s, 1)
                if k.isdigit():
                    return b, (int(k) if s == "+" else -int(k))
    return ax, 0


def ax_ok(E, a, b):
    if a is None or b is None or a == b or a == "1" or b == "1":
        return True
    if "*" in a and "*" in b and sorted(a.split("*")) == sorted(b.split("*")):
        return True
    if E.same_space(a, b):
        return True
    if a.startswith("t:") or b.startswith("t:") or a.startswith("n:") or b.startswith("n:"):
        return True       # a length of unknown meaning
    return False


def bcast(E, st, node, a, b, what):
    """Axes of an element-wise operation."""
    if a.axes is None and b.axes is None:
        return None
    if not isarr(a):
        return b.axes
    if not isarr(b):
        return a.axes
    if a.axes is None or b.axes is None:
        return a.axes if b.axes is None else b.axes
    x, y = a.axes, b.axes
    n = max(len(x), len(y))
    x = ("1",) * (n - len(x)) + tuple(x)
    y = ("1",) * (n - len(y)) + tuple(y)
    out = []
    for p, q in zip(x, y):
        if not ax_ok(E, p, q):
            E.emit("axis_mismatch", st, node, a=a.axes, b=b.axes, what=what)
        out.append(q if (p is None or p == "1") else p)
    return tuple(out)


def join_dt(a, b):
    if a is None or b is None:
        return "f" if "f" in (a, b) else None
    if "f" in (a, b):
        return "f"
    if "c" in (a, b):
        return "c"
    if a == b == "b":
        return "b"
    return "i"


def make(E, st, node, tag, content, is_arr):
    if is_arr:
        return E.arr(st, node, tag, content)
    if content.term is not None and content.kind != "any":
        T.KIND.setdefault(content.term, "s")
        if content.unit != TOP:
            E.tunit.setdefault(content.term, content.unit)
    return content.r(objs=NOOBJ)


def radd(a, b):
    if a is None or b is None:
        return None
    return (_n(a[0] + b[0], -INF), _n(a[1] + b[1], INF))


def _n(x, d):
    return d if x != x else x


def rneg(a):
    return None if a is None else (-a[1], -a[0])


def rmul(a, b):
    if a is None or b is None:
        return None
    ps = []
    for x in a:
        for y in b:
            p = x * y
            ps.append(0 if p != p else p)
    return (min(ps), max(ps))


def rdiv(a, b):
    if a is None or b is None:
        return None
    if b[0] > 0 or b[1] < 0 or (b[0] == 0 and b[1] > 0) or (b[1] == 0 and b[0] < 0):
        if b[0] >= 0:
            inv = (1 / b[1] if b[1] != INF else 0, 1 / b[0] if b[0] > 0 else INF)
        else:
            inv = (1 / b[1] if b[1] < 0 else -INF, 1 / b[0] if b[0] != -INF else 0)
        if b[1] == 0 and b[0] == 0:
            return None
        return rmul(a, inv)
    return None


def rpow(a, e):
    if a is None:
        return None
    if e == 2 or (isinstance(e, int) and e % 2 == 0 and e > 0):
        m = max(abs(a[0]), abs(a[1]))
        lo = 0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1]))
        return (lo ** e, INF if m == INF else m ** e)
    if a[0] >= 0 and e > 0:
        return (a[0] ** e, INF if a[1] == INF else a[1] ** e)
    return None


TOPN = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "Pow": "pow", "FloorDiv": "floordiv", "Mod": "mod",
        "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "MatMult": "matmul", "LShift": "shl", "RShift": "shr"}


def _pyop(op, x, y):
    try:
        if op == "Add":
            return x + y
        if op == "Sub":
            return x - y
        if op == "Mult":
            return x * y
        if op == "Div":
            return x / y
        if op == "FloorDiv":
            return x // y
        if op == "Mod":
            return x % y
        if op == "Pow":
            r = x ** y
            return r if not isinstance(r, complex) else None
        if op == "BitAnd":
            return x & y
        if op == "BitOr":
            return x | y
        if op == "BitXor":
            return x ^ y
        if op == "LShift":
            return x << y
        if op == "RShift":
            return x >> y
    except Exception:
        return None
    return None


# ---------------------------------------------------------------------------- operators
def binop(E, st, op, a, b, node):
    d = E.deps_of(st, [a, b])
    if op == "MatMult":
        return matmul(E, st, a, b, node)
    if a.kind == "str" or b.kind == "str":
        return one(st, str_binop(E, st, op, a, b, node, d))
    if a.kind in ("list", "tuple") and b.kind in ("list", "tuple") and op == "Add":
        x, y = E.items_of(st, a), E.items_of(st, b)
        if a.kind == "tuple":
            return one(st, V("tuple", items=tuple(x) + tuple(y) if x is not None and y is not None else None, deps=d))
        els = list(x or ()) + list(y or ())
        if x is not None and y is not None:
            o = E.alloc(st, node, "cat", Cell("list", items=els))
        else:
            e = els + [c.elem for v in (a, b) for o in v.objs for c in [st.heap.get(o)] if c is not None and c.elem is not None]
            o = E.alloc(st, node, "cat", Cell("list", items=None, elem=e[0] if e else None))
        return one(st, V("list", objs=frozenset([o]), deps=d))
    if op == "Mult" and (a.kind in ("list", "tuple") or b.kind in ("list", "tuple")) and not ("arr" in (a.kind, b.kind)):
        s = a if a.kind in ("list", "tuple") else b
        n = b if s is a else a
        its = E.items_of(st, s)
        if its is not None and n.known and isinstance(n.const, int) and len(its) * n.const <= 64:
            its = its * n.const
            if s.kind == "tuple":
                return one(st, V("tuple", items=tuple(its), deps=d))
            o = E.alloc(st, node, "rep", Cell("list", items=list(its)))
            return one(st, V("list", objs=frozenset([o]), deps=d))
        if s.kind == "tuple":
            return one(st, V("tuple", deps=d))
        o = E.alloc(st, node, "rep", Cell("list", items=None, elem=its[0] if its else None))
        return one(st, V("list", objs=frozenset([o]), deps=d))
    if a.kind in ("none", "func", "class", "mod", "dict") or b.kind in ("none", "func", "class", "mod", "dict"):
        bad = a if a.kind in ("none", "func", "class", "mod", "dict") else b
        E.emit("bad_operand", st, node, op=op, v=bad, other=b if bad is a else a)
        E.throw(st, vany(), node)
        return []
    if op == "Mult" and (a.kind == "sp" and (b.kind in ("arr", "sp")) or (b.kind == "sp" and a.kind == "arr")) and not _npsparse(a, b):
        return matmul(E, st, a, b, node)
    ca, cb = cont(E, st, a), cont(E, st, b)
    arr = (isarr(a) or isarr(b))
    ta, tb = tm(E, st, ca), tm(E, st, cb)
    if a.kind == "num" and b.kind == "num" and a.known and b.known:
        c = _pyop(op, a.const, b.const)
        if c is None and op in ("Div", "FloorDiv", "Mod") and b.const == 0:
            E.throw(st, vany(), node)
            return one(st, vany(d))
        if c is not None:
            r = vnum(c, d)
            u = _op_unit(E, st, op, a, b, node)
            if c == c and c not in (0, INF, -INF) and u not in (TOP,):
                r = r.r(unit=u if u != POLY else num_unit(c))
            return one(st, r.r(idx=_idx_op(op, a, b)))
    term = T.mk(TOPN[op], ta, tb)
    unit = _op_unit(E, st, op, ca, cb, node)
    axes = bcast(E, st, node, ca if isarr(a) else ca.r(axes=None), cb if isarr(b) else cb.r(axes=None), op) if arr else None
    dt = join_dt(ca.dt, cb.dt)
    if op == "Div":
        dt = "f"
    if op == "Pow" and (cb.dt == "f" or (b.known and isinstance(b.const, int) and b.const < 0)):
        dt = "f"
    ra, rb = E.rng(st, ca), E.rng(st, cb)
    rng = None
    if op == "Add":
        rng = radd(ra, rb)
    elif op == "Sub":
        rng = radd(ra, rneg(rb))
        if ta is tb:
            rng = (0, 0)
        elif arr is False and st.facts.get(T.mk("lt", ta, tb)) is False or st.facts.get(T.mk("le", tb, ta)) is True:
            rng = (max(rng[0], 0) if rng else 0, rng[1] if rng else INF)
    elif op == "Mult":
        rng = rmul(ra, rb) if ta is not tb else rpow(ra, 2) or (0, INF)
    elif op == "Div":
        rng = rdiv(ra, rb)
    elif op == "Pow":
        rng = rpow(ra, b.const) if b.known else None
        if b.known and b.const in (2, 2.0) and rng is None:
            rng = (0, INF)
    elif op == "FloorDiv":
        q = rdiv(ra, rb)
        if q is not None and q[0] >= 0:
            rng = (0, q[1])
    elif op == "Mod" and rb is not None and rb[0] > 0:
        rng = (0, rb[1])
    ex = None
    if op in ("BitAnd", "BitOr"):
        ex = {"and" if op == "BitAnd" else "or": (ca.r(objs=NOOBJ), cb.r(objs=NOOBJ))}
        unit = ONE
    kind = "num"
    if not arr and (a.kind not in ("num",) or b.kind not in ("num",)):
        kind = "any"
    fmt = None
    is_sp = (a.kind == "sp" or b.kind == "sp") and not (a.kind == "arr" or b.kind == "arr")
    r = V(kind, NOCONST, term, unit=unit, dt=dt, axes=axes, rng=rng, deps=d, idx=_idx_op(op, ca, cb), extra=ex)
    if is_sp:
        f = ca.fmt if a.kind == "sp" else cb.fmt
        return one(st, sp_new(E, st, node, r.r(kind="sp", fmt=f)))
    return one(st, make(E, st, node, op, r, arr))


def _npsparse(a, b):
    return False


def _idx_op(op, a, b):
    if op in ("Add", "Sub"):
        if a.dt in ("i",) and b.dt in ("i",):
            if a.idx is not None and a.idx != "0" and (b.idx is None or b.idx == "0") and (b.known or True):
                return a.idx
            if op == "Add" and b.idx is not None and b.idx != "0" and (a.idx is None or a.idx == "0"):
                return b.idx
    return None


def _op_unit(E, st, op, a, b, node):
    U = E.units
    if op in ("Add", "Sub", "Mod"):
        ua, ub = a.unit, b.unit
        unify(E, st, node, ua, ub, "added" if op == "Add" else ("subtracted" if op == "Sub" else "reduced modulo"))
        return U.join(ua, ub)
    if op == "Mult":
        return U.mul(lit_unit(a), lit_unit(b))
    if op in ("Div", "FloorDiv"):
        return U.div(lit_unit(a), lit_unit(b))
    if op == "Pow":
        ua = lit_unit(a)
        if ua in (POLY, TOP) or U.norm(ua) == ONE:
            return ua
        if b.known and isinstance(b.const, (int, float)) and b.const == b.const and abs(b.const) < 100:
            from fractions import Fraction
            return U.pow(ua, Fraction(b.const).limit_denominator(64))
        return TOP
    return ONE


def str_binop(E, st, op, a, b, node, d):
    if op == "Mod":
        if a.known:
            vals = E.items_of(st, b) if b.kind == "tuple" else (b,)
            if vals is not None and all(v.known for v in vals):
                try:
                    return vstr(a.const % tuple(v.const for v in vals), d)
                except Exception:
                    pass
            if vals is not None and a.const.count("%s") == len(vals) and "%" not in a.const.replace("%s", ""):
                parts = a.const.split("%s")
                ts = []
                for p, v in zip(parts, list(vals) + [None]):
                    if p:
                        ts.append(T.const(p))
                    if v is not None:
                        ts.append(tm(E, st, v))
                return V("str", term=concat(ts), deps=d)
        return V("str", term=T.mk("fmt", tm(E, st, a), tm(E, st, b)), deps=d)
    if op == "Add":
        if a.known and b.known:
            return vstr(a.const + b.const, d)
        return V("str", term=concat([tm(E, st, a), tm(E, st, b)]), deps=d)
    return V("str", deps=d)


def concat(ts):
    out = []
    for t in ts:
        xs = list(t.args) if t.op == "concat" else [t]
        for x in xs:
            if out and out[-1].op == "const" and x.op == "const" and isinstance(x.args[0], str) and isinstance(out[-1].args[0], str):
                out[-1] = T.const(out[-1].args[0] + x.args[0])
            else:
                out.append(x)
    if len(out) == 1:
        return out[0]
    return T.mk("concat", *out)


def unop(E, st, op, v, node):
    c = cont(E, st, v)
    if v.kind == "num" and v.known:
        try:
            x = -v.const if op == "USub" else (+v.const if op == "UAdd" else ~v.const)
            if op == "Invert" and isinstance(v.const, bool):
                return one(st, vany())
            r = vnum(x, v.deps)
            return one(st, r.r(unit=v.unit))
        except Exception:
            return one(st, vany(v.deps))
    if op == "UAdd":
        return one(st, v)
    if v.kind in ("none", "str", "func", "dict"):
        E.emit("bad_operand", st, node, op=op, v=v, other=None)
        E.throw(st, vany(), node)
        return []
    t = tm(E, st, c)
    arr = isarr(v)
    if op == "USub":
        nt = T.mk("neg", t)
        r = V("num" if v.kind != "any" else "any", NOCONST, nt, unit=c.unit, dt=c.dt, axes=c.axes, rng=rneg(E.rng(st, c)), deps=c.deps)
    else:
        r = V("num", NOCONST, T.mk("not", t), unit=ONE, dt=c.dt, axes=c.axes, deps=c.deps, extra={"not": c.r(objs=NOOBJ)})
    if v.kind == "sp":
        return one(st, sp_new(E, st, node, r.r(kind="sp", fmt=c.fmt)))
    return one(st, make(E, st, node, op, r, arr))


def compare(E, st, op, a, b, node):
    d = E.deps_of(st, [a, b])
    if op in ("Is", "IsNot"):
        r = _is(E, st, a, b)
        if r is not None:
            return one(st, vbool(r if op == "Is" else not r, d))
        t = T.mk("is", tm(E, st, a), tm(E, st, b))
        v = V("num", NOCONST, t, unit=ONE, dt="b", deps=d, extra={"is": (a.r(objs=NOOBJ), b.r(objs=NOOBJ))})
        if op == "IsNot":
            return one(st, V("num", NOCONST, T.mk("not", t), unit=ONE, dt="b", deps=d, extra={"not": v}))
        return one(st, v)
    if op in ("In", "NotIn"):
        r = _in(E, st, a, b)
        if r is not None:
            return one(st, vbool(r if op == "In" else not r, d))
        t = T.mk("in", tm(E, st, a), tm(E, st, b))
        v = V("num", NOCONST, t, unit=ONE, dt="b", deps=d)
        if op == "NotIn":
            return one(st, V("num", NOCONST, T.mk("not", t), unit=ONE, dt="b", deps=d, extra={"not": v}))
        return one(st, v)
    # equality on non-numbers
    if op in ("Eq", "NotEq"):
        r = _eq(E, st, a, b)
        if r is not None:
            return one(st, vbool(r if op == "Eq" else not r, d))
    ca, cb = cont(E, st, a), cont(E, st, b)
    arr = isarr(a) or isarr(b)
    if a.kind in ("none", "func", "str", "dict", "class") or b.kind in ("none", "func", "str", "dict", "class"):
        if op in ("Lt", "LtE", "Gt", "GtE") and not (a.kind == "str" and b.kind == "str") and "any" not in (a.kind, b.kind):
            E.emit("bad_operand", st, node, op=op, v=a if a.kind in ("none", "func", "str", "dict", "class") else b, other=b)
            E.throw(st, vany(), node)
            return []
        t = T.mk("cmp" + op, tm(E, st, a), tm(E, st, b))
        return one(st, V("num", NOCONST, t, unit=ONE, dt="b", deps=d))
    if not arr and a.kind == "num" and b.kind == "num" and a.known and b.known:
        x, y = a.const, b.const
        r = {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y, "Eq": x == y, "NotEq": x != y}[op]
        return one(st, vbool(r, d))
    unify(E, st, node, ca.unit, cb.unit, "compared")
    ta, tb = tm(E, st, ca), tm(E, st, cb)
    sa, sb = ca.r(objs=NOOBJ), cb.r(objs=NOOBJ)
    neg = False
    if op in ("Gt", "GtE"):
        sa, sb, ta, tb = sb, sa, tb, ta
        op = {"Gt": "Lt", "GtE": "LtE"}[op]
    if op == "NotEq":
        neg, op = True, "Eq"
    o = {"Lt": "lt", "LtE": "le", "Eq": "eq"}[op]
    axes = bcast(E, st, node, ca if isarr(a) else ca.r(axes=None), cb if isarr(b) else cb.r(axes=None), "compared") if arr else None
    t = T.mk(o, ta, tb)
    v = V("num", NOCONST, t, unit=ONE, dt="b", axes=axes, deps=d, extra={"cmp": (o, sa, sb)})
    E.emit("compare", st, node, v=v, op=o, a=sa, b=sb)
    if neg:
        v = V("num", NOCONST, T.mk("not", t), unit=ONE, dt="b", axes=axes, deps=d, extra={"not": v})
    if arr:
        return one(st, E.arr(st, node, "cmp", v))
    return one(st, v)


SINGLE = ("none", "func", "mod", "class", "inst", "dict", "list", "tuple", "arr", "sp", "str", "num", "set", "slice", "range")


def _is(E, st, a, b):
    if a.kind == "none" and b.kind == "none":
        return True
    for x, y in ((a, b), (b, a)):
        if x.kind == "none":
            if y.kind in SINGLE or y.kind in ("rec", "linop", "locals", "other", "dtype"):
                return False
            return None
        if x.kind == "num" and x.known and isinstance(x.const, bool):
            if y.kind == "num" and y.known:
                return isinstance(y.const, bool) and y.const == x.const
            if y.kind in ("none", "str", "func", "arr", "list", "tuple", "inst", "dict", "mod", "class"):
                return False
            return None
    if a.kind != b.kind and a.kind in SINGLE and b.kind in SINGLE:
        return False
    if a.kind == "mod" or a.kind == "func":
        return a.fn == b.fn and a.const == b.const if a.kind == b.kind else None
    if a.kind in ("arr", "inst", "list", "dict") and a.objs and b.objs and not (a.objs & b.objs):
        return None
    return None


def _eq(E, st, a, b):
    for x, y in ((a, b), (b, a)):
        if x.kind == "str" and y.kind in ("none", "func", "class", "inst", "num", "list", "dict", "mod"):
            return False
        if x.kind == "none" and y.kind in ("num", "str", "func", "inst", "tuple", "list", "dict"):
            return False
        if x.kind in ("func", "class", "inst") and y.kind in ("num", "none"):
            return False
        if x.kind == "tuple" and y.kind in ("str", "none", "num"):
            return False
    if a.kind == "str" and b.kind == "str" and a.known and b.known:
        return a.const == b.const
    if a.kind == "none" and b.kind == "none":
        return True
    if a.kind == "tuple" and b.kind == "tuple" and a.items is not None and b.items is not None:
        if len(a.items) != len(b.items):
            return False
        rs = []
        for x, y in zip(a.items, b.items):
            if x.kind == "num" and y.kind == "num":
                if x.known and y.known:
                    rs.append(x.const == y.const)
                elif x.term is not None and y.term is not None and T.equal(x.term, y.term):
                    rs.append(True)
                else:
                    rs.append(None)
            else:
                rs.append(_eq(E, st, x, y))
        if all(r is True for r in rs):
            return True
        if any(r is False for r in rs):
            return False
        return None
    if a.kind == "num" and b.kind == "num" and a.term is not None and b.term is not None and not (a.known and b.known):
        if a.dt == "i" and b.dt == "i" and T.equal(a.term, b.term):
            return True
    if a.kind == "dtype" and b.kind == "dtype" and a.dt in ("f", "i", "b") and b.dt in ("f", "i", "b") and a.dt != b.dt:
        return False
    return None


def _in(E, st, a, b):
    if b.kind == "any" and b.extra and "dict_of" in b.extra and a.kind == "str" and a.known:
        from .libfn import own_attr
        return own_attr(E, st, b.extra["dict_of"], a.const)
    if b.kind == "locals" and a.kind == "str" and a.known:
        return a.const in b.items
    if b.kind == "dict" and len(b.objs) == 1:
        c = st.heap.get(next(iter(b.objs)))
        if c is not None and isinstance(c.items, dict):
            if tm(E, st, a) in c.items:
                return True
            if not (c.extra or {}).get("open") and a.known and all(k.op == "const" for k in c.items):
                return False
        return None
    its = E.items_of(st, b)
    if its is None:
        if b.kind == "str" and b.known and a.kind == "str" and a.known:
            return a.const in b.const
        return None
    rs = []
    for x in its:
        if x.kind == "num" and a.kind == "num" and x.known and a.known:
            rs.append(x.const == a.const)
        elif x.kind == "func" and a.kind == "func":
            rs.append(x.fn == a.fn)
        elif a.kind == "dtype" or x.kind == "dtype":
            if a.kind == "dtype" and a.dt is not None and x.kind == "func":
                fx = dt_of(x)
                rs.append(None if (fx == a.dt or a.dt in (None, "c")) else False)
            else:
                rs.append(None)
        else:
            r = _eq(E, st, a, x)
            if r is None and (a.term is not None and a.term is x.term):
                r = True
            rs.append(r)
    if any(r is True for r in rs):
        return True
    if all(r is False for r in rs):
        return False
    if a.kind == "dtype" and a.dt == "f":
        return True
    return None


# ---------------------------------------------------------------------------- indexing
def idx_event(E, st, node, c, pos, iv, mode, ref):
    ax = c.axes[pos] if c.axes is not None and pos < len(c.axes) else None
    E.emit("index", st, node, axis=ax, idx=iv.idx, i=iv, base=c, ref=ref, mode=mode, pos=pos)


def mask_id(E, t):
    d = E.maskids
    if t not in d:
        d[t] = len(d)
    return "m%d" % d[t]


def mask_interval(E, st, m, xt, pol=True):
    """Interval of the array xt on the entries selected by the mask content m; None when it says nothing."""
    ex = m.extra if isinstance(m.extra, dict) else {}
    if "not" in ex:
        return mask_interval(E, st, ex["not"], xt, not pol)
    if ("and" in ex and pol) or ("or" in ex and not pol):
        a, b = ex["and" if "and" in ex else "or"]
        x, y = mask_interval(E, st, a, xt, pol), mask_interval(E, st, b, xt, pol)
        if x is None or y is None:
            return x if y is None else y
        return (max(x[0], y[0]), min(x[1], y[1]))
    if ("or" in ex and pol) or ("and" in ex and not pol):
        a, b = ex["or" if "or" in ex else "and"]
        x, y = mask_interval(E, st, a, xt, pol), mask_interval(E, st, b, xt, pol)
        if x is None or y is None:
            return None
        return (min(x[0], y[0]), max(x[1], y[1]))
    if "cmp" in ex:
        op, a, b = ex["cmp"]
        if op in ("lt", "le"):
            ra, rb = E.rng(st, a), E.rng(st, b)
            for x, y, s in ((a, b, 1), (b, a, -1)):
                if x.term is None:
                    continue
                f = 1
                t = x.term
                if t is not xt and (t.op == "neg" and t.args[0] is xt or xt.op == "neg" and xt.args[0] is t):
                    f = -1
                elif t is not xt:
                    continue
                ry = rb if s == 1 else ra
                if ry is None:
                    continue
                # s == 1: x <= y ; s == -1: x >= y  (negated when not pol)
                up = (s == 1) == pol
                iv = (-INF, ry[1]) if up else (ry[0], INF)
                if f == -1:
                    iv = (-iv[1], -iv[0])
                return iv
    return None


def sel_axis(E, ax, m):
    return "%s|%s" % (ax if ax is not None else "?", mask_id(E, m.term) if m.term is not None else "?")


def load_subscript(E, st, b, i, node):
    k = b.kind
    if k == "locals":
        if i.kind == "str" and i.known:
            v = b.items.get(i.const)
            E.emit("locals_read", st, node, name=i.const, v=v)
            if v is None:
                E.throw(st, vany(), node)
                return []
            return one(st, v)
        return one(st, vany(b.deps))
    if k == "rec":
        if i.kind == "str" and i.known and i.const in b.items:
            return one(st, b.items[i.const])
        return one(st, vany(b.deps))
    if k in ("tuple", "list"):
        its = E.items_of(st, b)
        if its is not None and i.kind == "num" and i.known and isinstance(i.const, int):
            if -len(its) <= i.const < len(its):
                return one(st, its[i.const])
            E.emit("bad_index", st, node, n=len(its), i=i.const)
            E.throw(st, vany(), node)
            return []
        if its is not None and i.kind == "slice" and all(x.kind == "none" or (x.known and isinstance(x.const, int)) for x in i.items):
            s = slice(*[None if x.kind == "none" else x.const for x in i.items])
            if k == "tuple":
                return one(st, V("tuple", items=tuple(its[s]), deps=b.deps))
            o = E.alloc(st, node, "sl", Cell("list", items=list(its[s])))
            return one(st, V("list", objs=frozenset([o]), deps=b.deps))
        if k == "list" and len(b.objs) == 1 and its is None:
            c = st.heap.get(next(iter(b.objs)))
            if c is not None and c.elem is not None and i.kind != "slice":
                return one(st, c.elem.r(deps=c.elem.deps | i.deps))
        if its:
            kinds = {x.kind for x in its}
            if len(kinds) == 1 and i.kind != "slice":
                r = its[0]
                for x in its[1:]:
                    r = E.join_attr(r, x).r(objs=r.objs | x.objs)
                return one(st, r.r(term=E.fresh(st, node, "el"), deps=r.deps | i.deps))
        return one(st, vany(b.deps | i.deps))
    if k == "dict":
        return dict_load(E, st, b, i, node)
    if k == "str":
        if b.known and i.known:
            try:
                return one(st, vstr(b.const[i.const]))
            except Exception:
                pass
        if i.kind == "slice" and b.term is not None:
            lo, hi, sp = i.items
            if b.known and all(x.kind == "none" or x.known for x in i.items):
                return one(st, vstr(b.const[slice(*[None if x.kind == "none" else x.const for x in i.items])]))
            if lo.kind == "none" and hi.known and isinstance(hi.const, int) and hi.const < 0:
                t = strip_tail(b.term, -hi.const)
                return one(st, V("str", term=t, deps=b.deps))
        return one(st, V("str", deps=b.deps))
    if k == "any" and b.extra and "dict_of" in b.extra and i.kind == "str" and i.known:
        return E.getattr(st, b.extra["dict_of"], i.const, node)
    if k == "none" or k == "func" or (k == "num" and b.term is not None and b.dt in ("b",)):
        if k in ("none", "func"):
            E.emit("bad_operand", st, node, op="subscript", v=b, other=i)
            E.throw(st, vany(), node)
            return []
    if k in ("arr", "sp"):
        return one(st, arr_load(E, st, b, i, node))
    if k == "range":
        a = b.extra["a"]
        return one(st, V("num", dt="i", term=E.fresh(st, node, "ri"), deps=b.deps))
    if k == "any":
        t = T.mk("load", b.term, tm(E, st, i)) if b.term is not None else None
        return one(st, V("any", term=t, deps=b.deps | i.deps, unit=b.unit))
    return one(st, vany(b.deps | i.deps))


def strip_tail(t, n):
    if t.op == "concat" and t.args[-1].op == "const" and isinstance(t.args[-1].args[0], str) and len(t.args[-1].args[0]) > n:
        return concat(list(t.args[:-1]) + [T.const(t.args[-1].args[0][:-n])])
    if t.op == "path" and t.args[-1].op == "const" and len(t.args[-1].args[0]) > n:
        return T.mk("path", *(list(t.args[:-1]) + [T.const(t.args[-1].args[0][:-n])]))
    return T.mk("striptail", t, T.const(n))


def is_mask(c):
    return c.dt == "b"


def arr_load(E, st, b, i, node):
    c = E.c(st, b)
    parts = list(i.items) if i.kind == "tuple" and i.items is not None else [i]
    if i.kind == "tuple" and i.items is None:
        return E.arr(st, node, "ld", c.r(axes=None, term=E.fresh(st, node, "ld")))
    E.emit("load", st, node, ref=b, base=c, index=i)
    d = c.deps
    for p in parts:
        d = d | E.deps_of(st, [p])
    axes = c.axes
    known = axes is not None
    pos = 0
    out = []
    scalar = True
    view = True
    bterm = c.term if c.term is not None else tm(E, st, c)
    full = True
    mask = None
    tparts = []
    nreal = len([p for p in parts if p.kind not in ("none", "ellipsis")])
    nd = len(axes) if known else None
    rng = c.rng
    for p in parts:
        ax = axes[pos] if known and pos < len(axes) else None
        if p.kind == "none":
            out.append("1")
            tparts.append(T.const(None))
            scalar = False
            full = False
            continue
        if p.kind == "ellipsis":
            if known:
                k = len(axes) - (nreal)
                out += list(axes[pos:pos + k])
                pos += k
            scalar = False
            continue
        if p.kind == "slice":
            scalar = False
            lo, hi, step = p.items
            if lo.kind == "none" and hi.kind == "none" and step.kind == "none":
                out.append(ax)
                tparts.append(T.mk("all"))
            else:
                full = False
                out.append(slice_axis(E, st, ax, lo, hi, step, node))
                tparts.append(T.mk("slice", tm(E, st, lo), tm(E, st, hi), tm(E, st, step)))
                for q in (lo, hi):
                    if q.kind == "num" and q.idx is not None:
                        E.emit("bound", st, node, axis=ax, idx=q.idx, i=q, base=c)
            pos += 1
            continue
        pc = cont(E, st, p)
        if isarr(p):
            scalar = False
            view = False
            full = False
            if is_mask(pc):
                mask = pc
                if pc.axes is not None and known and ax is not None and pc.axes[0] is not None and not ax_ok(E, pc.axes[0], ax):
                    E.emit("axis_mismatch", st, node, a=(ax,), b=pc.axes, what="mask")
                out.append(sel_axis(E, ax, pc))
                tparts.append(T.mk("mask", tm(E, st, pc)))
            else:
                idx_event(E, st, node, c, pos, pc.r(kind="num"), "load", b)
                out.append(pc.axes[0] if pc.axes else None)
                tparts.append(tm(E, st, pc))
            pos += 1
            continue
        full = False
        idx_event(E, st, node, c, pos, pc, "load", b)
        tparts.append(tm(E, st, pc))
        pos += 1
    if known and pos < len(axes):
        out += list(axes[pos:])
        scalar = False
    elif not known and not scalar:
        pass
    if not known and len(parts) == 1 and parts[0].kind == "slice":
        oax = None
    elif not known and nd is None and any(isarr(p) for p in parts) and len(parts) == 1:
        oax = tuple(out) if b.kind == "arr" else None
    else:
        oax = tuple(out)
    if full and not scalar:
        t = bterm
    else:
        t = _load_term(bterm, tparts)
    rng = c.rng
    if mask is not None and c.term is not None:
        iv = mask_interval(E, st, mask, c.term)
        if iv is not None:
            r0 = rng if rng is not None else (-INF, INF)
            rng = (max(r0[0], iv[0]), min(r0[1], iv[1]))
            if rng[0] > rng[1]:
                rng = (rng[0], rng[0])
    if b.kind == "sp":
        if scalar:
            return V("num", term=t, unit=c.unit, dt=c.dt, deps=d)
        if mask is not None and c.fmt not in ("csr", "csc", "lil", "any-ix"):
            E.emit("fmt_index", st, node, fmt=c.fmt, base=c)
        elif c.fmt is not None and c.fmt in ("coo", "dia", "bsr", "unknown"):
            E.emit("fmt_index", st, node, fmt=c.fmt, base=c)
        return sp_new(E, st, node, V("sp", term=t, unit=c.unit, dt=c.dt, axes=oax if oax and len(oax) == 2 else None, deps=d, fmt=c.fmt))
    if scalar:
        r = V("num", NOCONST, t, unit=c.unit, dt=c.dt, idx=c.idx if c.idx != "0" else None, rng=c.rng, deps=d)
        T.KIND.setdefault(t, "s")
        if c.unit != TOP:
            E.tunit.setdefault(t, c.unit)
        # a fact may bound this very element
        return r
    content = V("arr", NOCONST, t, unit=c.unit, dt=c.dt, axes=oax, idx=c.idx, rng=rng, deps=d, extra=c.extra if full else None)
    return E.arr(st, node, "ld", content, b.objs if view else NOOBJ)


def _load_term(bt, parts):
    # element of an element-wise store
    return T.mk("load", bt, *parts)


def slice_axis(E, st, ax, lo, hi, step, node):
    if step.kind != "none" and not (step.known and step.const == 1):
        if step.known and step.const == -1 and lo.kind == "none" and hi.kind == "none":
            return ax
        return None
    b, k = base_axis(ax)
    if lo.kind == "none" or (lo.known and lo.const == 0):
        if hi.kind == "none":
            return ax
        if hi.known and isinstance(hi.const, int):
            if hi.const < 0 and ax is not None and not str(ax).startswith("t:") and "|" not in str(ax) and "*" not in str(ax) and ":" not in str(ax):
                k += hi.const
                return b if k == 0 else "%s%s%d" % (b, "+" if k > 0 else "-", abs(k))
            if hi.const >= 0:
                return str(hi.const)
            return None
        return axis_of(E, st, hi)
    if hi.kind == "none" and lo.known and isinstance(lo.const, int) and ax is not None and ":" not in str(ax) and "|" not in str(ax) and "*" not in str(ax):
        if lo.const > 0:
            k -= lo.const
            return b if k == 0 else "%s%s%d" % (b, "+" if k > 0 else "-", abs(k))
        return str(-lo.const)
    # a window starting somewhere: keeps the element space, unknown length
    return None


def store_subscript(E, st, b, i, v, node, aug):
    if b.kind == "any" and b.extra and "dict_of" in b.extra and i.kind == "str" and i.known and aug is None:
        E.store_attr(st, b.extra["dict_of"], i.const, v, node)
        return [st]
    if b.kind == "dict":
        return dict_store(E, st, b, i, v, node)
    if b.kind == "list":
        its = E.items_of(st, b)
        for o in b.objs:
            c = st.heap.get(o)
            if c is None:
                continue
            if its is not None and i.known and isinstance(i.const, int) and -len(its) <= i.const < len(its) and len(b.objs) == 1:
                c.items[i.const] = v
            else:
                els = list(c.items or []) + ([c.elem] if c.elem is not None else [])
                c.items = None
                c.elem = v if not els else els[0].r(term=E.fresh(st, node, "el"), deps=els[0].deps | v.deps)
        E.emit("mutate", st, node, objs=frozenset(b.objs), direct=b.objs, how="item assignment", content=v)
        return [st]
    if b.kind in ("tuple", "none", "str", "func") or (b.kind == "num" and b.known):
        E.emit("bad_operand", st, node, op="item assignment", v=b, other=v)
        E.throw(st, vany(), node)
        return []
    if b.kind == "locals" or b.kind == "other":
        return [st]
    if b.kind not in ("arr", "sp"):
        E.emit("store_unknown", st, node, b=b, v=v)
        return [st]
    c = E.c(st, b)
    cv = cont(E, st, v)
    parts = list(i.items) if i.kind == "tuple" and i.items is not None else [i]
    axes = c.axes
    d = c.deps | cv.deps | st.pc
    pos = 0
    target = []
    whole = True
    scalar = True
    mask = None
    tparts = []
    for p in parts:
        ax = axes[pos] if axes is not None and pos < len(axes) else None
        d = d | E.deps_of(st, [p])
        if p.kind in ("none",):
            continue
        if p.kind == "ellipsis":
            scalar = False
            continue
        if p.kind == "slice":
            scalar = False
            lo, hi, step = p.items
            if not (lo.kind == "none" and hi.kind == "none" and step.kind == "none"):
                whole = False
                target.append(slice_axis(E, st, ax, lo, hi, step, node))
                tparts.append(T.mk("slice", tm(E, st, lo), tm(E, st, hi), tm(E, st, step)))
            else:
                target.append(ax)
                tparts.append(T.mk("all"))
            pos += 1
            continue
        whole = False
        pc = cont(E, st, p)
        if isarr(p):
            scalar = False
            if is_mask(pc):
                mask = pc
                if pc.axes is not None and ax is not None and pc.axes[0] is not None and not ax_ok(E, pc.axes[0], ax):
                    E.emit("axis_mismatch", st, node, a=(ax,), b=pc.axes, what="mask")
                target.append(sel_axis(E, ax, pc))
                tparts.append(T.mk("mask", tm(E, st, pc)))
            else:
                idx_event(E, st, node, c, pos, pc.r(kind="num"), "store", b)
                target.append(pc.axes[0] if pc.axes else None)
                tparts.append(tm(E, st, pc))
        else:
            idx_event(E, st, node, c, pos, pc, "store", b)
            # a scratch buffer filled through a counter takes the counter's space
            if pc.idx is not None and pc.idx.startswith("n:") and axes is not None and len(axes) == 1 and not pc.known:
                own = all(not o.startswith(("P:", "U:")) for o in b.objs)
                if own and c.idx in ("0", None) and not str(axes[0]).startswith("N:") and aug is None:
                    axes = ("N:" + pc.idx[2:],)
                    c = c.r(axes=axes)
            tparts.append(tm(E, st, pc))
        pos += 1
    if isarr(v) and cv.axes is not None and axes is not None and not scalar:
        tgt = tuple(target) + tuple(axes[pos:])
        x, y = tgt, tuple(cv.axes)
        if len(y) <= len(x):
            for p, q in zip(x[len(x) - len(y):], y):
                if not ax_ok(E, p, q):
                    E.emit("axis_mismatch", st, node, a=x, b=y, what="assigned")
    if c.dt in ("i", "c", "b") and cv.dt == "f":
        E.emit("store_dtype", st, node, ref=b, base=c, v=cv)
    u = c.unit
    if u == POLY or c.unit == TOP:
        u = cv.unit if cv.unit != TOP else c.unit
        if c.unit == TOP:
            u = TOP
    else:
        unify(E, st, node, c.unit, cv.unit, "stored")
    bt = tm(E, st, c)
    vt = tm(E, st, cv)
    if whole:
        t = vt
    elif aug is not None and aug[0] in ("Add", "Sub") and scalar:
        t = T.mk("add" if aug[0] == "Add" else "sub", bt, T.mk("onehot", T.mk("tuple", *tparts) if len(tparts) > 1 else tparts[0], tm(E, st, cont(E, st, aug[1]))))
    else:
        t = T.mk("store", bt, T.mk("tuple", *tparts) if len(tparts) > 1 else (tparts[0] if tparts else T.const(None)), vt)
    idx = c.idx
    if cv.idx is not None and cv.idx.startswith("n:"):
        cv = cv.r(idx="N:" + cv.idx[2:])
    if idx in (None, "0"):
        if idx == "0" or whole:
            idx = cv.idx if cv.idx is not None else ("0" if (v.kind == "num" and v.known and idx == "0") else (None if not (v.kind == "num" and v.known) else idx))
    elif cv.idx is not None and cv.idx != "0" and not E.same_space(idx, cv.idx):
        E.emit("elem_space", st, node, base=c, idx=idx, v=cv, vidx=cv.idx)
    rng = cv.rng if whole else (None if c.rng is None or cv.rng is None else (min(c.rng[0], cv.rng[0]), max(c.rng[1], cv.rng[1])))
    nv = V("arr", NOCONST, t, unit=u, dt=c.dt, axes=axes, idx=idx, rng=rng, deps=d, fmt=c.fmt)
    E.emit("store", st, node, ref=b, base=c, index=i, v=cv, mask=mask, aug=aug, scalar=scalar, whole=whole, new=nv)
    how = "assignment to " + ("its contents" if whole else "elements")
    E.write(st, b, nv, node, how, strong=True, index=i, v=v, aug=aug)
    return [st]


def aug_array(E, st, b, v, op, node, _):
    c = E.c(st, b)
    cv = cont(E, st, v)
    if v.kind in ("none", "str", "func"):
        E.emit("bad_operand", st, node, op=op, v=v, other=b)
        E.throw(st, vany(), node)
        return []
    r = binop(E, st, op, E.as_value(st, b, node), v, node)
    res = []
    for s2, x in r:
        cx = E.c(s2, x)
        rdt = cx.dt
        if c.dt in ("i", "c", "b") and (rdt == "f" or (op == "Div")):
            E.emit("store_dtype", s2, node, ref=b, base=c, v=cx)
        nv = cx.r(dt=c.dt if c.dt is not None else rdt, deps=cx.deps | s2.pc, axes=c.axes if c.axes is not None else cx.axes)
        E.emit("aug", s2, node, ref=b, base=c, v=cv, op=op, new=nv)
        E.write(s2, b, nv, node, "in-place " + op, strong=True, v=v, aug=(op, v))
        res.append(s2)
    return res


def list_extend(E, st, b, v, node):
    its = E.items_of(st, v)
    for o in b.objs:
        c = st.heap.get(o)
        if c is None:
            continue
        if isinstance(c.items, list) and its is not None and len(b.objs) == 1 and not E.loops:
            c.items = list(c.items) + list(its)
        else:
            els = list(c.items or []) + list(its or []) + ([c.elem] if c.elem is not None else [])
            c.items = None
            if els:
                c.elem = els[0] if len(els) == 1 else E.join_attr(els[0], els[1]).r(objs=els[0].objs | els[1].objs)
    E.emit("mutate", st, node, objs=frozenset(b.objs), direct=b.objs, how="list extension", content=v)


# ---------------------------------------------------------------------------- dictionaries
def dict_load(E, st, b, i, node, default=None, get=False):
    k = tm(E, st, i)
    E.emit("dict_load", st, node, d=b, key=k, keyv=i, get=get)
    if len(b.objs) == 1:
        c = st.heap.get(next(iter(b.objs)))
        if c is not None and isinstance(c.items, dict):
            if k in c.items:
                return one(st, c.items[k])
            ex = c.extra or {}
            if k in ex.get("deleted", ()) and not get:
                E.emit("dict_reinsert", st, node, d=b, key=k)
            if ex.get("default") is not None and (not get or default is not None and default.kind == "num"):
                if ex.get("valv") is not None and k not in ex.get("deleted", ()):
                    v = ex["valv"].r(term=T.mk("weight", k))
                    T.KIND.setdefault(v.term, "s")
                elif ex.get("loose") and ex["default"].kind == "num":
                    # some keys were added or removed on some of the paths here
                    v = ex["default"].r(const=NOCONST, term=E.fresh(st, node, "w"), rng=None, dt="f")
                    T.KIND.setdefault(v.term, "s")
                elif c.items and k.op != "const" and ex["default"].kind == "num" and k not in ex.get("deleted", ()):
                    # the key may be one of those already present
                    v = ex["default"].r(const=NOCONST, term=T.mk("weight", k), rng=None, dt="f")
                    T.KIND.setdefault(v.term, "s")
                else:
                    v = ex["default"]
                c.items[k] = v
                return one(st, v)
            if ex.get("valv") is not None:
                v = ex["valv"].r(term=T.mk("weight", k))
                T.KIND.setdefault(v.term, "s")
                c.items[k] = v
                return one(st, v)
            if get:
                if all(x.op == "const" for x in c.items) and k.op == "const" and not ex.get("open"):
                    return one(st, default if default is not None else NONE)
            elif k.op == "const" and not ex.get("open") and all(x.op == "const" for x in c.items):
                E.emit("bad_key", st, node, key=k)
                E.throw(st, vany(), node)
                return []
            if c.elem is not None:
                return one(st, c.elem)
    return one(st, vany(b.deps | i.deps))


def dict_store(E, st, b, i, v, node):
    k = tm(E, st, i)
    E.emit("dict_store", st, node, d=b, key=k, keyv=i, v=v)
    for o in b.objs:
        c = st.heap.get(o)
        if c is not None and isinstance(c.items, dict):
            if len(b.objs) == 1:
                c.items = dict(c.items)
                c.items[k] = v
            else:
                c.extra = dict(c.extra or {}, open=True)
    E.emit("mutate", st, node, objs=frozenset(b.objs), direct=b.objs, how="dictionary update", content=v)
    return [st]


# ---------------------------------------------------------------------------- sparse matrices
def sp_new(E, st, node, content, share=None, tag="sp"):
    oid = E.alloc(st, node, tag, Cell("sp", content.r(kind="sp", objs=NOOBJ), frozenset(share or ())))
    if content.term is not None:
        T.KIND[content.term] = "a"
    return V("sp", objs=frozenset([oid]))


def rows_plus1(ax):
    if ax is None:
        return None
    b, k = base_axis(ax)
    if ":" in str(ax) or "*" in str(ax) or "|" in str(ax):
        return str(ax) + "^+1"
    k += 1
    return b if k == 0 else "%s%s%d" % (b, "+" if k > 0 else "-", abs(k))


def rows_minus1(ax):
    if ax is None:
        return None
    if str(ax).endswith("^+1"):
        return str(ax)[:-3]
    b, k = base_axis(ax)
    if ":" in str(ax) or "*" in str(ax) or "|" in str(ax):
        return str(ax)
    k -= 1
    return b if k == 0 else "%s%s%d" % (b, "+" if k > 0 else "-", abs(k))


def sp_part(E, st, b, name, node):
    """data / indices / indptr of a sparse matrix."""
    c = E.c(st, b)
    E.emit("sp_internals", st, node, fmt=c.fmt, name=name, base=c, ref=b)
    if len(b.objs) != 1:
        return V("arr", term=E.fresh(st, node, name), deps=c.deps)
    (o,) = b.objs
    oid = o + "." + name
    if oid not in st.heap:
        pos = c.extra.get("pos") if isinstance(c.extra, dict) else None
        pos = pos or ("P:" + o.split("/")[-1])
        major, minor = (c.axes if c.axes is not None else (None, None))
        if c.fmt == "csc":
            major, minor = minor, major
        t = T.mk("part", T.const(name), c.term if c.term is not None else tm(E, st, c))
        if name == "data":
            v = V("arr", NOCONST, t, unit=c.unit, dt=c.dt, axes=(pos,), deps=c.deps)
        elif name == "indices":
            v = V("arr", NOCONST, t, unit=ONE, dt="i", axes=(pos,), idx=minor, rng=(0, INF), deps=c.deps)
        elif name == "indptr":
            v = V("arr", NOCONST, t, unit=ONE, dt="i", axes=(rows_plus1(major),), idx=pos, rng=(0, INF), deps=c.deps)
        else:
            v = V("arr", NOCONST, t, unit=ONE, dt="i", axes=(pos,), idx=major if name == "row" else minor, deps=c.deps)
        T.KIND[t] = "a"
        st.heap[oid] = Cell("arr", v, frozenset([o]))
    return V("arr", objs=frozenset([oid]))


def csr_from(E, st, a, kw, node, fmt):
    src = arg(a, kw, 0, "arg1")
    shape = arg(a, kw, 1, "shape")
    if src is None:
        return vany()
    if src.kind == "sp":
        c = E.c(st, src)
        nf = fmt
        share = src.objs if c.fmt in (fmt, "unknown", None) and not _truthy(kw.get("copy")) else NOOBJ
        if c.fmt == fmt and share:
            # same buffers
            v = sp_new(E, st, node, c.r(fmt=nf), share)
            return v
        t = c.term
        return sp_new(E, st, node, V("sp", term=t, unit=c.unit, dt=c.dt, axes=c.axes, deps=c.deps, fmt=nf, extra=c.extra), share)
    if src.kind == "arr":
        c = E.c(st, src)
        ax = c.axes
        if ax is not None and len(ax) == 1:
            ax = ("1",) + tuple(ax)
        return sp_new(E, st, node, V("sp", term=c.term, unit=c.unit, dt=c.dt, axes=ax, deps=c.deps, fmt=fmt))
    its = E.items_of(st, src)
    if its is not None and len(its) == 3 and fmt in ("csr", "csc"):
        cd, ci, cp = [cont(E, st, x) for x in its]
        axes = None
        pos = cd.axes[0] if cd.axes and cd.axes[0] else (ci.axes[0] if ci.axes else None)
        if pos is None:
            pos = "P:" + E.site(st, node).split("/")[-1]
        maj = rows_minus1(cp.axes[0]) if cp.axes else None
        mnr = None
        if shape is not None and shape.kind == "tuple" and shape.items is not None and len(shape.items) == 2:
            r, c2 = [axis_of(E, st, x) for x in shape.items]
            if fmt == "csc":
                r, c2 = c2, r
            if maj is not None and r is not None and not ax_ok(E, maj, r):
                E.emit("csr_shape", st, node, declared=r, actual=maj, what="row pointers")
            if ci.idx is not None and c2 is not None and ci.idx != "0" and not ci.idx.startswith(("n:",)) and not ax_ok(E, ci.idx, c2):
                E.emit("csr_shape", st, node, declared=c2, actual=ci.idx, what="column indices")
            maj, mnr = r, c2
        else:
            E.emit("csr_noshape", st, node, fmt=fmt, idx=ci.idx)
            mnr = "inferred"
        # declare what the three arrays are
        for q in (pos, cp.idx):
            if q is not None and str(q).startswith(("t:", "n:", "N:", "P:")):
                E.positions.add(q)
        if maj is not None and str(maj).startswith(("t:", "n:", "N:")):
            E.rowspaces.add(maj)
        for ref, cc, newax, newidx in ((its[0], cd, (pos,), None), (its[1], ci, (pos,), mnr if mnr != "inferred" else None),
                                       (its[2], cp, (rows_plus1(maj),), pos)):
            if ref.kind == "arr" and len(ref.objs) == 1:
                cell = st.heap[next(iter(ref.objs))]
                x = cell.v
                if x.axes is None or x.axes[0] is None:
                    x = x.r(axes=newax)
                if newidx is not None and x.idx in (None, "0"):
                    x = x.r(idx=newidx)
                if newidx is not None and ref is its[2] and x.idx not in (None, "0") and x.idx != newidx:
                    if str(x.idx).startswith("N:") and not str(newidx).startswith("N:"):
                        E.union_space(x.idx, newidx)
                cell.v = x
        if ci.idx is not None and ci.axes and ci.axes[0] is not None and mnr and ci.idx == ci.axes[0]:
            pass
        t = T.mk("csr", *[tm(E, st, x) for x in its])
        axes = (maj, mnr) if fmt == "csr" else (mnr, maj)
        d = E.deps_of(st, list(its) + ([shape] if shape is not None else []))
        v = sp_new(E, st, node, V("sp", term=t, unit=cd.unit, dt=cd.dt, axes=axes, deps=d, fmt=fmt, extra={"pos": pos}),
                   frozenset().union(*[x.objs for x in its]))
        (o,) = v.objs
        for nme, x in zip(("data", "indices", "indptr"), its):
            if x.kind == "arr" and len(x.objs) == 1:
                cx = E.c(st, x)
                st.heap[o + "." + nme] = Cell("arr", cx, frozenset(x.objs) | frozenset([o]))
        return v
    if its is not None and len(its) == 2 and all(x.kind == "num" for x in its):
        return sp_new(E, st, node, V("sp", term=E.fresh(st, node, "spz"), unit=POLY, dt="f",
                                     axes=tuple(axis_of(E, st, x) for x in its), fmt=fmt))
    c = cont(E, st, src)
    if its is not None and shape is None and fmt == "csr":
        E.emit("csr_noshape", st, node, fmt=fmt, idx=None)
    ax = None
    if shape is not None and shape.kind == "tuple" and shape.items is not None:
        ax = tuple(axis_of(E, st, x) for x in shape.items)
    unit = c.unit
    if its is not None and len(its) == 2:
        unit = cont(E, st, its[0]).unit
    return sp_new(E, st, node, V("sp", term=T.mk("call", "sparse." + fmt, *[tm(E, st, x) for x in a]), unit=unit, dt=c.dt, axes=ax,
                                 deps=E.deps_of(st, list(a) + list(kw.values())), fmt=fmt))


def _truthy(v):
    return v is not None and v.known and bool(v.const)


def matmul(E, st, a, b, node):
    """Matrix/vector products."""
    if a.kind == "linop" or b.kind == "linop":
        return one(st, linop_apply(E, st, a if a.kind == "linop" else b, b if a.kind == "linop" else a, "matvec", node))
    ca, cb = cont(E, st, a), cont(E, st, b)
    if not isarr(a) and not isarr(b):
        if "any" in (a.kind, b.kind):
            return one(st, V("any", term=T.mk("mm", tm(E, st, ca), tm(E, st, cb)), deps=ca.deps | cb.deps))
        return binop(E, st, "Mult", a, b, node)
    if (a.kind == "num" or b.kind == "num"):
        return binop(E, st, "Mult", a, b, node)
    na = 2 if a.kind == "sp" else (len(ca.axes) if ca.axes is not None else None)
    nb = 2 if b.kind == "sp" else (len(cb.axes) if cb.axes is not None else None)
    if na is None:
        na = 1 if ca.term is None or not (T.kindof(ca.term) == "m") else 2
    if nb is None:
        nb = 1
    xa = ca.axes if ca.axes is not None else (None,) * na
    xb = cb.axes if cb.axes is not None else (None,) * nb
    ka = xa[-1]
    kb = xb[0] if nb == 1 else xb[-2]
    if not ax_ok(E, ka, kb):
        E.emit("axis_mismatch", st, node, a=xa, b=xb, what="product")
    con = ka if ka is not None else kb
    u = E.units.mul(ca.unit, cb.unit)
    if not (ca.fmt == "dia" or cb.fmt == "dia"):
        u = E.units.mul(u, dim_factor(E, con))
    d = ca.deps | cb.deps
    ta, tb = tm(E, st, ca), tm(E, st, cb)
    dt = join_dt(ca.dt, cb.dt)
    if na == 1 and nb == 1:
        t = T.mk("dot", ta, tb)
        T.KIND[t] = "s"
        rng = (0, INF) if ta is tb or T.equal(ta, tb) else None
        return one(st, make(E, st, node, "dot", V("num", NOCONST, t, unit=u, dt=dt, deps=d, rng=rng), False))
    if na == 2 and nb == 1:
        t = T.mk("mv", ta, tb)
        ax = (xa[0],)
    elif na == 1 and nb == 2:
        t = T.mk("mv", T.mk("tr", tb) if tb.op != "tr" else tb.args[0], ta)
        ax = (xb[1],)
    else:
        t = T.mk("mm", ta, tb)
        ax = (xa[0], xb[1]) if na == 2 and nb == 2 else None
    c = V("arr", NOCONST, t, unit=u, dt=dt, axes=ax, deps=d)
    if a.kind == "sp" and b.kind == "sp":
        return one(st, sp_new(E, st, node, c.r(kind="sp", fmt="csr" if ca.fmt in ("csr", "dia") and cb.fmt in ("csr", "dia") else (cb.fmt if ca.fmt == "dia" else ca.fmt))))
    return one(st, E.arr(st, node, "mm", c))


def linop_apply(E, st, op, v, how, node):
    c = cont(E, st, v)
    ex = op.extra or {}
    r, q = (op.axes or (None, None))
    if how in ("rmatvec", "adjoint"):
        r, q = q, r
        t = T.mk("mv", T.mk("tr", op.term), tm(E, st, c))
    else:
        t = T.mk("mv", op.term, tm(E, st, c))
    if c.axes and not ax_ok(E, q, c.axes[0]):
        E.emit("axis_mismatch", st, node, a=(r, q), b=c.axes, what="operator")
    u = E.units.mul(op.unit, c.unit)
    return E.arr(st, node, how, V("arr", NOCONST, t, unit=u, dt="f", axes=(r,) if r else None, deps=c.deps | op.deps))


# ---------------------------------------------------------------------------- iteration
def iter_len_rng(E, st, itv):
    if itv is None:
        return None
    if itv.kind == "range":
        a = itv.extra["a"]
        if len(a) == 1:
            lo, hi = vnum(0), a[0]
        else:
            lo, hi = a[0], a[1]
        if len(a) == 3:
            return (0, INF)
        rl, rh = E.rng(st, lo), E.rng(st, hi)
        if rl is None or rh is None:
            return (0, INF)
        return (max(0, rh[0] - rl[1]), max(0, rh[1] - rl[0]))
    if itv.kind in ("list", "tuple"):
        its = E.items_of(st, itv)
        if its is not None:
            return (len(its), len(its))
    if itv.kind == "arr":
        c = E.c(st, itv)
        if c.axes and c.axes[0] is not None:
            ax = str(c.axes[0])
            if ax.isdigit():
                return (int(ax), int(ax))
            if ax in E.nonempty:
                return (1, INF)
    return (0, INF)


def taints(itv):
    return itv.deps


def range_bounds(itv):
    a = itv.extra["a"]
    if len(a) == 1:
        return vnum(0), a[0], vnum(1)
    if len(a) == 2:
        return a[0], a[1], vnum(1)
    return a[0], a[1], a[2]


def idx_of_size(E, st, hi):
    """Index space counted by a length."""
    ax = None
    if hi.term is not None:
        ax = axis_of(E, st, hi)
    if ax is None or ax.isdigit():
        return None
    if ax.startswith("t:"):
        return None
    b, k = base_axis(ax)
    if k <= 0:
        return b
    return b


def iter_elem(E, st, itv, node, lid):
    k = itv.kind
    if E.elem_hook is not None and k in ("any", "list"):
        r = E.elem_hook(E, st, itv, node, lid)
        if r is not None:
            return r
    if k == "range":
        lo, hi, step = range_bounds(itv)
        idx = None
        for q in (lo, hi):
            if q.idx not in (None, "0") and not q.known:
                idx = q.idx if idx is None or not idx.startswith("N:") else idx
        if lo.idx not in (None, "0") and hi.idx not in (None, "0"):
            # prefer the concrete space
            for q in (hi, lo):
                if not q.idx.startswith("n:"):
                    idx = q.idx
            if not lo.idx.startswith("n:") and not hi.idx.startswith("n:") and not E.same_space(lo.idx, hi.idx):
                E.emit("range_space", st, node, a=lo.idx, b=hi.idx)
        if idx is None:
            idx = idx_of_size(E, st, hi)
        t = T.mk("loopvar", lid + ":i", loops=tuple(E.loops))
        T.KIND[t] = "s"
        rl, rh = E.rng(st, lo), E.rng(st, hi)
        rng = (rl[0] if rl else -INF, (rh[1] - 1) if rh else INF)
        if step.known and step.const < 0:
            rng = None
        v = V("num", NOCONST, t, unit=ONE, dt="i", idx=idx, rng=rng, deps=lo.deps | hi.deps | step.deps,
              extra={"range": (lo.term, hi.term)})
        if hi.term is not None:
            st.facts[T.mk("lt", t, hi.term)] = True
        if lo.term is not None:
            st.facts[T.mk("le", lo.term, t)] = True
        return one(st, v)
    if k == "enum":
        res = []
        inner = itv.extra["v"]
        for s2, x in iter_elem(E, st, inner, node, lid + "e"):
            t = T.mk("loopvar", lid + ":n", loops=tuple(E.loops))
            T.KIND[t] = "s"
            cx = cont(E, s2, inner)
            res.append((s2, V("tuple", items=(V("num", NOCONST, t, unit=ONE, dt="i", rng=(0, INF), idx=(cx.axes[0] if isarr(inner) and cx.axes else None), deps=inner.deps), x))))
        return res
    if k == "zip":
        cur = [(st, [])]
        for j, inner in enumerate(itv.items):
            cur = [(s3, xs + [x]) for s2, xs in cur for s3, x in iter_elem(E, s2, inner, node, lid + "z%d" % j)]
        return [(s, V("tuple", items=tuple(xs))) for s, xs in cur]
    if k == "ndenum":
        inner = itv.extra["v"]
        c = cont(E, st, inner)
        t = T.mk("loopvar", lid + ":n", loops=tuple(E.loops))
        T.KIND[t] = "s"
        ks = (V("num", NOCONST, t, unit=ONE, dt="i", rng=(0, INF), idx=c.axes[0] if c.axes else None),)
        return [(s2, V("tuple", items=(V("tuple", items=ks), x))) for s2, x in iter_elem(E, st, inner, node, lid + "d")]
    if k == "items":
        d = itv.extra["d"]
        return [(s2, x) for s2, x in dict_elem(E, st, d, node, lid, itv.extra["what"])]
    if k == "dict":
        return dict_elem(E, st, itv, node, lid, "keys")
    if k in ("list", "tuple", "set"):
        its = E.items_of(st, itv)
        if its:
            r = its[0]
            for x in its[1:]:
                r = E.join_attr(r, x).r(objs=r.objs | x.objs) if r.kind == x.kind else vany()
            return one(st, r.r(term=E.fresh(st, node, "el")) if r.kind in ("num", "any") else r)
        for o in itv.objs:
            c = st.heap.get(o)
            if c is not None and c.elem is not None:
                return one(st, c.elem)
        return one(st, vany(itv.deps))
    if k == "arr":
        c = E.c(st, itv)
        t = T.mk("load", tm(E, st, c), T.mk("loopvar", lid + ":k", loops=tuple(E.loops)))
        if c.axes is not None and len(c.axes) > 1:
            return one(st, E.arr(st, node, "row", c.r(axes=tuple(c.axes[1:]), term=t), itv.objs))
        T.KIND[t] = "s"
        return one(st, V("num", NOCONST, t, unit=c.unit, dt=c.dt, idx=c.idx if c.idx != "0" else None, rng=c.rng, deps=c.deps,
                         extra={"iter": itv}))
    if k in ("none", "num", "func"):
        E.emit("bad_operand", st, node, op="iteration", v=itv, other=None)
        E.throw(st, vany(), node)
        return []
    return one(st, V("any", term=E.fresh(st, node, "el"), deps=itv.deps))


def dict_elem(E, st, d, node, lid, what):
    c = st.heap.get(next(iter(d.objs))) if len(d.objs) == 1 else None
    ex = (c.extra or {}) if c is not None else {}
    kt = T.mk("loopvar", lid + ":key", loops=tuple(E.loops))
    kv = V("any", term=kt)
    if ex.get("keyv") is not None:
        kv = ex["keyv"].r(term=kt)
    vv = vany()
    if ex.get("valv") is not None:
        vv = ex["valv"].r(term=T.mk("weight", kt))
        T.KIND[vv.term] = "s"
    elif c is not None and isinstance(c.items, dict) and c.items:
        vs = list(c.items.values())
        vv = vs[0]
        for x in vs[1:]:
            vv = E.join_attr(vv, x).r(objs=vv.objs | x.objs) if vv.kind == x.kind else vany()
        if vv.kind in ("num",):
            vv = vv.r(term=T.mk("weight", kt))
    if what == "keys":
        return one(st, kv)
    if what == "values":
        return one(st, vv)
    return one(st, V("tuple", items=(kv, vv)))


from .libfn import *  # noqa

"""Library functions and methods."""
import math
from fractions import Fraction

from . import terms as T
from .units import POLY, TOP, ONE
from .values import (V, Cell, UNBOUND, NONE, NOCONST, NODEPS, NOOBJ, INF, vbool, vstr, vany, vnum, num_unit)
from .lib import (one, arg, cont, isarr, tm, unify, lit_unit, dim_factor, size_val, size_unit, axis_of, ax_ok, bcast, join_dt, make,
                  radd, rneg, rmul, rdiv, rpow, sp_new, sp_part, csr_from, matmul, linop_apply, fnv, binop, compare, unop, concat,
                  dict_load, dict_elem, iter_elem, base_axis, load_subscript, list_extend, mask_interval, _truthy, rows_plus1)
from . import lib as L

__all__ = ["value_attr", "call_method", "call_lib", "dt_of"]

FN = {}
SPATTR = {"csr": ("data", "indices", "indptr"), "csc": ("data", "indices", "indptr"), "bsr": ("data", "indices", "indptr"),
          "coo": ("data", "row", "col"), "lil": ("data", "rows"), "dia": ("data",), "dok": ()}
# functions of NumPy that do not dispatch to the methods of a sparse matrix
NPDENSE = {"numpy." + z for z in ("dot", "matmul", "inner", "outer", "vdot", "tensordot", "einsum", "asarray", "array", "asanyarray", "ascontiguousarray",
                                  "concatenate", "vstack", "hstack", "stack", "linalg.norm", "linalg.svd", "atleast_1d", "atleast_2d", "multiply.outer")}


def lib(*names):
    def deco(f):
        for n in names:
            FN[n] = f
        return f
    return deco


def dt_of(v):
    """Element type named by a dtype argument."""
    if v is None or v.kind == "none":
        return None
    if v.kind == "dtype":
        return v.dt
    if v.kind == "func" and isinstance(v.fn, tuple):
        n = v.fn[1].split(".")[-1]
        if n.startswith(("float", "double", "single", "longdouble", "half")):
            return "f"
        if n.startswith(("int", "uint", "intp", "long", "short", "byte")):
            return "i"
        if n.startswith("bool"):
            return "b"
    if v.kind == "str" and v.known:
        s = v.const.lstrip("<>=|")
        if s.startswith(("float", "f", "d", "double")):
            return "f"
        if s.startswith(("int", "i", "u", "long")):
            return "i"
        if s.startswith(("bool", "?")):
            return "b"
    return "?"


MUT_METHODS = {"sort", "fill", "resize", "put", "partition", "itemset", "setflags", "byteswap", "setfield",
               "sum_duplicates", "sort_indices", "eliminate_zeros", "setdiag", "prune"}
METHOD_FN = {"dot": "numpy.dot", "sum": "numpy.sum", "mean": "numpy.mean", "max": "numpy.max", "min": "numpy.min", "clip": "numpy.clip",
             "argmax": "numpy.argmax", "argmin": "numpy.argmin", "any": "numpy.any", "all": "numpy.all", "cumsum": "numpy.cumsum",
             "nonzero": "numpy.nonzero", "prod": "numpy.prod", "std": "numpy.std", "var": "numpy.var", "argsort": "numpy.argsort",
             "round": "numpy.round", "squeeze": "numpy.squeeze", "transpose": "numpy.transpose", "ravel": "numpy.ravel",
             "reshape": "numpy.reshape", "repeat": "numpy.repeat", "conj": "numpy.conj", "conjugate": "numpy.conj", "trace": "numpy.trace",
             "diagonal": "numpy.diagonal", "swapaxes": "numpy.swapaxes", "take": "numpy.take", "searchsorted": "numpy.searchsorted"}


def _ndattrs():
    import numpy as np
    return set(dir(np.ndarray))


_nd = None
_spd = None


def _spattrs():
    global _spd
    if _spd is None:
        import scipy.sparse as sp
        s = set()
        for f in ("csr", "csc", "coo", "dia", "lil"):
            s |= set(dir(sp.eye(2, format=f)))
        _spd = s
    return _spd


# ---------------------------------------------------------------------------- attributes
def value_attr(E, st, b, name, node):
    global _nd
    k = b.kind
    if k == "arr":
        c = E.c(st, b)
        if name == "shape":
            if c.axes is None:
                return one(st, V("tuple", deps=NODEPS, extra={"shape_of": c.term}))
            return one(st, V("tuple", items=tuple(size_val(E, a) for a in c.axes)))
        if name == "size":
            return one(st, total_size(E, c))
        if name == "ndim":
            return one(st, vnum(len(c.axes)) if c.axes is not None else V("num", dt="i", term=T.mk("ndim", tm(E, st, c)), unit=ONE, rng=(0, INF)))
        if name == "T":
            return one(st, transpose(E, st, b, c, node))
        if name == "dtype":
            return one(st, V("dtype", dt=c.dt, term=T.mk("dtype", tm(E, st, c)), deps=NODEPS))
        if name in ("real", "flat", "data", "base"):
            return one(st, E.arr(st, node, name, c, b.objs))
        if _nd is None:
            _nd = _ndattrs()
        if name not in _nd:
            E.emit("missing_attr", st, node, base="numpy.ndarray", name=name)
            E.throw(st, vany(), node)
            return []
        return one(st, meth(b, name))
    if k == "sp":
        c = E.c(st, b)
        if name == "shape":
            if c.axes is None:
                return one(st, V("tuple", items=(size_val(E, None).r(term=E.fresh(st, node, "r")), size_val(E, None).r(term=E.fresh(st, node, "c")))))
            return one(st, V("tuple", items=tuple(size_val(E, a).r(term=None) if a is None else size_val(E, a) for a in c.axes)))
        if name == "T":
            return one(st, transpose(E, st, b, c, node))
        if name in ("data", "indices", "indptr", "row", "col", "rows"):
            if c.fmt in SPATTR and name not in SPATTR[c.fmt]:
                E.emit("missing_attr", st, node, base="scipy.sparse matrix in %s format" % c.fmt, name=name)
                E.throw(st, vany(), node)
                return []
            return one(st, sp_part(E, st, b, name, node))
        if name == "dtype":
            return one(st, V("dtype", dt=c.dt))
        if name == "format":
            return one(st, vstr(c.fmt) if c.fmt in SPATTR else V("str", term=T.mk("fmtof", tm(E, st, c))))
        if name in ("nnz", "size"):
            return one(st, V("num", dt="i", term=T.mk("nnz", tm(E, st, c)), unit=ONE if not E.dim_count else TOP, rng=(0, INF), deps=c.deps))
        if name == "ndim":
            return one(st, vnum(2))
        if name not in _spattrs():
            E.emit("missing_attr", st, node, base="scipy.sparse matrix", name=name)
            E.throw(st, vany(), node)
            return []
        return one(st, meth(b, name))
    if k == "num":
        if name in ("T", "real"):
            return one(st, b)
        if name == "size":
            return one(st, vnum(1))
        if name == "shape":
            return one(st, V("tuple", items=()))
        if name == "ndim":
            return one(st, vnum(0))
        if name == "dtype":
            return one(st, V("dtype", dt=b.dt))
        return one(st, meth(b, name))
    if k == "linop":
        if name == "shape":
            r, q = b.axes or (None, None)
            return one(st, V("tuple", items=(size_val(E, r), size_val(E, q))))
        if name in ("T", "H"):
            return one(st, b.r(axes=tuple(reversed(b.axes)) if b.axes else None, term=b.term.args[0] if b.term.op == "tr" else T.mk("tr", b.term)))
        return one(st, meth(b, name))
    if k == "rec":
        if name in b.items:
            return one(st, b.items[name])
        return one(st, meth(b, name))
    if k == "finfo":
        return one(st, V("num", NOCONST, T.mk("finfo", T.const(name), b.term), unit=POLY, dt="f", rng=(0, 1e-6) if name in ("eps", "resolution", "tiny") else None))
    if k == "any" and b.term is not None:
        return one(st, V("any", term=T.mk("attr", b.term, T.const(name)), deps=b.deps, extra={"recv": b, "name": name}, fn=None) if False else meth(b, name))
    if k == "none":
        E.emit("missing_attr", st, node, base="None", name=name)
        E.throw(st, vany(), node)
        return []
    if k == "func" and name in ("__call__",):
        return one(st, b)
    if k == "func" and isinstance(b.fn, tuple) and b.fn[0] == "lib":
        return one(st, fnv(b.fn[1] + "." + name))
    if k == "list" and name in ("append", "extend", "insert", "pop", "remove", "index", "count", "sort", "reverse", "clear", "copy"):
        return one(st, meth(b, name))
    if k in ("list", "tuple", "dict", "str", "set"):
        real = {"list": list, "tuple": tuple, "dict": dict, "str": str, "set": set}[k]
        if not hasattr(real, name):
            if not (k == "dict" and name == "default_factory"):
                E.emit("missing_attr", st, node, base=k, name=name)
                E.throw(st, vany(), node)
                return []
        return one(st, meth(b, name))
    return one(st, meth(b, name))


def meth(b, name):
    from .engine import LibMeth
    return V("func", fn=LibMeth(b, name), term=T.mk("meth", T.const(name), b.term) if b.term is not None else None, deps=b.deps)


def total_size(E, c):
    if c.axes is None:
        return V("num", NOCONST, T.mk("size", c.term) if c.term is not None else None, unit=ONE if not E.dim_count else TOP, dt="i", rng=(0, INF))
    if len(c.axes) == 1:
        v = size_val(E, c.axes[0])
        if v.term is None:
            v = v.r(term=T.mk("size", c.term) if c.term is not None else None)
        return v
    u = ONE
    t = None
    for a in c.axes:
        s = size_val(E, a)
        u = E.units.mul(u, s.unit)
        t = s.term if t is None or s.term is None else T.mk("mul", t, s.term)
    return V("num", NOCONST, t, unit=u, dt="i", rng=(0, INF))


def transpose(E, st, b, c, node):
    axes = tuple(reversed(c.axes)) if c.axes is not None else None
    t = c.term if c.term is not None else tm(E, st, c)
    if axes is None or len(axes) != 1:
        nt = t.args[0] if t.op == "tr" else T.mk("tr", t)
        if b.kind == "arr" and c.axes is None:
            nt = t        # vectors are the default; a transpose of a vector is itself
    else:
        nt = t
    if b.kind == "sp":
        f = {"csr": "csc", "csc": "csr"}.get(c.fmt, c.fmt)
        ex = None
        return sp_new(E, st, node, c.r(axes=axes, term=nt, fmt=f, extra=ex), b.objs, "T")
    return E.arr(st, node, "T", c.r(axes=axes, term=nt), b.objs)


# ---------------------------------------------------------------------------- methods
def call_method(E, st, recv, name, args, kwargs, node):
    E.emit("method", st, node, recv=recv, name=name, args=args, kwargs=kwargs)
    for h in E.method_hooks:
        r = h(E, st, recv, name, args, kwargs, node)
        if r is not None:
            return r
    k = recv.kind
    d = E.deps_of(st, [recv] + args + list(kwargs.values()))
    if k == "arr" or (k == "num" and name in METHOD_FN) or (k == "num" and name in ("copy", "astype", "flatten", "item", "tolist")):
        if name in MUT_METHODS and k == "arr":
            c = E.c(st, recv)
            if name == "setflags":
                return one(st, NONE)
            if name == "fill":
                v = cont(E, st, args[0]) if args else vany()
                if c.dt in ("i", "c") and v.dt == "f":
                    E.emit("store_dtype", st, node, ref=recv, base=c, v=v)
                E.write(st, recv, c.r(term=v.term, unit=v.unit, rng=v.rng, deps=c.deps | v.deps), node, ".fill()")
            else:
                E.write(st, recv, c.r(term=E.fresh(st, node, name)), node, "." + name + "()")
            return one(st, NONE)
        if name == "copy":
            c = cont(E, st, recv)
            if k == "num":
                return one(st, recv)
            return one(st, E.arr(st, node, "copy", c))
        if name == "flatten":
            c = cont(E, st, recv)
            return one(st, E.arr(st, node, "flat", flat_content(E, c)))
        if name == "astype":
            c = cont(E, st, recv)
            nd = dt_of(arg(args, kwargs, 0, "dtype"))
            if nd == "?":
                nd = None
            if nd == "i" and c.dt == "f":
                E.emit("truncate", st, node, base=c)
            cp = kwargs.get("copy")
            if k == "num":
                return one(st, recv.r(dt=nd))
            if c.dt == "b" and nd in ("i", "f"):
                c = c.r(extra=None)
            return one(st, E.arr(st, node, "astype", c.r(dt=nd), recv.objs if cp is not None and cp.known and not cp.const else NOOBJ))
        if name in ("item",):
            c = cont(E, st, recv)
            return one(st, V("num", NOCONST, T.mk("item0", tm(E, st, c)), unit=c.unit, dt=c.dt, deps=d))
        if name == "tolist":
            return one(st, V("list", deps=d))
        if name == "view":
            return one(st, E.arr(st, node, "view", E.c(st, recv), recv.objs))
        f = METHOD_FN.get(name)
        if f is not None:
            return call_lib(E, st, f, [recv] + args, kwargs, node)
        E.note("array method %s" % name, node)
        if k == "num":
            return one(st, V("any", term=T.mk("call", "." + name, *[tm(E, st, a) for a in [recv] + args]), deps=d))
        return one(st, E.arr(st, node, name, V("arr", term=T.mk("call", "." + name, *[tm(E, st, a) for a in [recv] + args]), deps=d)))
    if k == "sp":
        return sp_method(E, st, recv, name, args, kwargs, node, d)
    if k == "linop":
        if name in ("matvec", "dot", "__call__", "matmat", "__mul__", "rmatvec"):
            return one(st, linop_apply(E, st, recv, args[0], "rmatvec" if name == "rmatvec" else "matvec", node))
        return one(st, vany(d))
    if k == "list":
        return list_method(E, st, recv, name, args, kwargs, node, d)
    if k == "dict":
        if name in ("items", "keys", "values"):
            return one(st, V("items", extra={"d": recv, "what": name if name != "items" else "items"}, deps=recv.deps, term=T.mk("items", ",".join(sorted(recv.objs)))))
        if name == "get":
            return dict_load(E, st, recv, args[0], node, default=args[1] if len(args) > 1 else NONE, get=True)
        if name in ("pop", "popitem", "clear", "update", "setdefault"):
            E.emit("mutate", st, node, objs=frozenset(recv.objs), direct=recv.objs, how="dictionary ." + name, content=vany())
            if name == "pop" and args:
                r = dict_load(E, st, recv, args[0], node, default=args[1] if len(args) > 1 else None, get=True)
                for s2, _ in r:
                    E.del_item(s2, recv, args[0], node)
                return r
            for o in recv.objs:
                c = st.heap.get(o)
                if c is not None:
                    c.extra = dict(c.extra or {}, open=True)
                    if name == "clear":
                        c.items = {}
            return one(st, NONE if name in ("clear", "update") else vany(d))
        if name == "copy":
            c = st.heap.get(next(iter(recv.objs))) if len(recv.objs) == 1 else None
            if c is not None:
                o = E.alloc(st, node, "dcopy", c.copy())
                return one(st, V("dict", objs=frozenset([o])))
        return one(st, vany(d))
    if k == "locals":
        if name == "get" and args and args[0].known:
            v = recv.items.get(args[0].const)
            E.emit("locals_read", st, node, name=args[0].const, v=v)
            return one(st, v if v is not None else (args[1] if len(args) > 1 else NONE))
        return one(st, vany(d))
    if k == "str":
        if recv.known and all(a.known for a in args) and not kwargs:
            try:
                r = getattr(recv.const, name)(*[a.const for a in args])
                if isinstance(r, str):
                    return one(st, vstr(r, d))
                if isinstance(r, bool):
                    return one(st, vbool(r, d))
                if isinstance(r, int):
                    return one(st, vnum(r, d))
            except Exception:
                pass
        if name in ("startswith", "endswith", "isdigit"):
            return one(st, V("num", dt="b", unit=ONE, term=T.mk("call", "str." + name, *[tm(E, st, a) for a in [recv] + args]), deps=d))
        if name == "format" and recv.known:
            import re
            parts = re.split(r"\{[^{}]*\}", recv.const)
            if len(parts) == len(args) + 1 and not kwargs:
                ts = []
                for p, a in zip(parts, list(args) + [None]):
                    if p:
                        ts.append(T.const(p))
                    if a is not None:
                        ts.append(tm(E, st, a))
                return one(st, V("str", term=concat(ts), deps=d))
        if name in ("format", "join", "strip", "lower", "upper", "replace", "rstrip", "lstrip", "encode"):
            return one(st, V("str", term=T.mk("call", "str." + name, *[tm(E, st, a) for a in [recv] + args]), deps=d))
        return one(st, vany(d))
    if k == "set":
        return one(st, vany(d))
    if k == "rec":
        return one(st, vany(d))
    r = E.unknown_method(st, recv, name, args, kwargs, node) if hasattr(E, "unknown_method") else None
    if r is not None:
        return r
    t = T.mk("call", "." + name, *[tm(E, st, a) for a in [recv] + args]) if recv.term is not None else None
    return one(st, V("any", term=t, deps=d))


def flat_content(E, c):
    if c.axes is None:
        return c
    if len(c.axes) == 1:
        return c
    if any(a is None for a in c.axes):
        return c.r(axes=(None,))
    ax = [a for a in c.axes if a != "1"]
    t = c.term if not ax or len(ax) == 1 else T.mk("ravel", c.term) if c.term is not None and c.term.op != "reshape" else (c.term.args[0] if c.term is not None else None)
    return c.r(axes=("*".join(ax) if ax else "1",), term=t)


def list_method(E, st, recv, name, args, kwargs, node, d):
    if name in ("append", "insert", "extend"):
        if name == "extend":
            list_extend(E, st, recv, args[0], node)
            return one(st, NONE)
        x = args[-1]
        for o in recv.objs:
            c = st.heap.get(o)
            if c is None:
                continue
            if isinstance(c.items, list) and len(recv.objs) == 1 and not E.loops and name == "append":
                c.items = list(c.items) + [x]
            else:
                els = list(c.items or []) + ([c.elem] if c.elem is not None else [])
                c.items = None
                if not els:
                    c.elem = x
                else:
                    e = els[0]
                    for z in els[1:] + [x]:
                        e = E.join_attr(e, z).r(objs=e.objs | z.objs) if e.kind == z.kind else vany(e.deps | z.deps)
                    c.elem = e.r(term=T.mk("fresh", "el:" + o, loops=())) if e.kind in ("num", "any") else e
        E.emit("mutate", st, node, objs=frozenset(recv.objs), direct=recv.objs, how="list ." + name, content=x)
        return one(st, NONE)
    if name in ("sort", "reverse", "clear", "remove", "pop"):
        E.emit("mutate", st, node, objs=frozenset(recv.objs), direct=recv.objs, how="list ." + name, content=vany())
        els = None
        for o in recv.objs:
            c = st.heap.get(o)
            if c is not None:
                its = list(c.items or []) + ([c.elem] if c.elem is not None else [])
                if name == "pop" and isinstance(c.items, list) and not args and c.items and len(recv.objs) == 1:
                    els = c.items[-1]
                    c.items = c.items[:-1]
                    continue
                els = its[0] if its else None
                if its:
                    c.items, c.elem = None, its[0]
        return one(st, (els if els is not None else vany(d)) if name == "pop" else NONE)
    if name == "copy":
        c = st.heap.get(next(iter(recv.objs))) if len(recv.objs) == 1 else None
        if c is not None:
            o = E.alloc(st, node, "lcopy", c.copy())
            return one(st, V("list", objs=frozenset([o])))
    if name == "index":
        return one(st, V("num", dt="i", unit=ONE, deps=d, term=E.fresh(st, node, "ix")))
    return one(st, vany(d))


def sp_method(E, st, recv, name, args, kwargs, node, d):
    c = E.c(st, recv)
    if name in ("dot", "multiply_", "__matmul__"):
        return matmul(E, st, recv, args[0], node)
    if name in ("tocsr", "tocsc", "tocoo", "tolil", "todia", "tobsr", "asformat", "asfptype"):
        f = name[2:] if name != "asformat" else (args[0].const if args and args[0].known else "unknown")
        if name == "asfptype":
            f = c.fmt
        share = recv.objs if not _truthy(kwargs.get("copy")) else NOOBJ
        ex = c.extra if f == c.fmt else None
        if ex is None and f == "csr" and c.axes is not None and c.axes[0] == "F" and c.axes[1] != "S":
            ex = {"pos": "F"}       # a partition of the features into blocks, seen from the features: one entry per row
        return one(st, sp_new(E, st, node, c.r(fmt=f, extra=ex), share))
    if name in ("toarray", "todense"):
        return one(st, E.arr(st, node, name, c.r(kind="arr", fmt=None)))
    if name in ("copy",):
        return one(st, sp_new(E, st, node, c))
    if name == "astype":
        nd = dt_of(arg(args, kwargs, 0, "dtype"))
        return one(st, sp_new(E, st, node, c.r(dt=nd if nd != "?" else None)))
    if name == "transpose":
        return one(st, transpose(E, st, recv, c, node))
    if name == "sum":
        ax = arg(args, kwargs, 0, "axis")
        return one(st, reduce_sum(E, st, c, ax, node, "sum", two_d=True))
    if name == "mean":
        ax = arg(args, kwargs, 0, "axis")
        return one(st, reduce_sum(E, st, c, ax, node, "mean", two_d=True))
    if name in ("multiply",):
        cb = cont(E, st, args[0])
        return one(st, sp_new(E, st, node, V("sp", term=T.mk("mul", tm(E, st, c), tm(E, st, cb)), unit=E.units.mul(c.unit, cb.unit), dt=join_dt(c.dt, cb.dt), axes=c.axes, deps=d, fmt=c.fmt)))
    if name in ("getrow", "getcol"):
        return one(st, sp_new(E, st, node, c.r(axes=("1", c.axes[1]) if c.axes and name == "getrow" else (c.axes[0], "1") if c.axes else None, term=T.mk("call", "." + name, *[tm(E, st, x) for x in [c] + args]))))
    if name in MUT_METHODS:
        E.write(st, recv, c.r(term=E.fresh(st, node, name)), node, "." + name + "()")
        return one(st, NONE)
    if name in ("max", "min"):
        return one(st, V("num", term=T.mk("call", "." + name, tm(E, st, c)), unit=c.unit, dt=c.dt, deps=d))
    if name in ("reshape",):
        return one(st, sp_new(E, st, node, c.r(axes=None, term=T.mk("call", ".reshape", tm(E, st, c)))))
    if name in ("power",):
        e = args[0]
        return one(st, sp_new(E, st, node, c.r(term=T.mk("pow", tm(E, st, c), tm(E, st, e)), unit=E.units.pow(c.unit, e.const) if e.known and c.unit not in (POLY, TOP) else c.unit)))
    E.note("sparse method %s" % name, node)
    return one(st, V("any", term=T.mk("call", "." + name, *[tm(E, st, a) for a in [c] + args]), deps=d))


# ---------------------------------------------------------------------------- calls
def call_lib(E, st, q, args, kwargs, node):
    q = L.ALIAS.get(q, q)
    E.emit("libcall", st, node, name=q, args=args, kwargs=kwargs)
    if q in NPDENSE and any(z.kind == "sp" for z in args[:2]):
        E.emit("sp_to_numpy", st, node, name=q, args=args)
    h = E.lib_hooks.get(q)
    if h is not None:
        r = h(E, st, args, kwargs, node)
        if r is not None:
            return r
    if q.startswith("op."):
        out = kwargs.get("out")
        r = binop(E, st, q[3:], args[0], args[1], node)
        return _with_out(E, r, out, node)
    if q.startswith("cmp."):
        return compare(E, st, q[4:], args[0], args[1], node)
    f = FN.get(q)
    if f is not None:
        try:
            r = f(E, st, args, kwargs, node)
        except (IndexError, AttributeError, TypeError) as e:
            if E.debug:
                raise
            E.note("call %s not modelled (%s)" % (q, e), node)
            r = one(st, unknown_result(E, st, q, args, kwargs, node))
        if isinstance(r, V):
            r = one(st, r)
        return _with_out(E, r, kwargs.get("out"), node)
    if q.startswith("builtins.") and hasattr(__import__("builtins"), q[9:]):
        o = getattr(__import__("builtins"), q[9:])
        if isinstance(o, type) and issubclass(o, BaseException):
            return one(st, V("exc", const=q[9:], deps=NODEPS))
    if q.startswith("numpy.random."):
        E.emit("random", st, node, name=q, args=args, kwargs=kwargs)
        return one(st, V("any", term=E.fresh(st, node, "rnd"), deps=E.deps_of(st, args)))
    if q.startswith("random."):
        E.emit("random", st, node, name=q, args=args, kwargs=kwargs)
        return one(st, V("any", term=E.fresh(st, node, "rnd")))
    if q.startswith("time.") or q.startswith("datetime."):
        if any(x in q for x in ("time.time", "now", "perf_counter", "monotonic", "utcnow", "today", "process_time")):
            E.emit("clock", st, node, name=q)
        return one(st, V("any", term=E.fresh(st, node, "clk")))
    return one(st, unknown_result(E, st, q, args, kwargs, node))


def _with_out(E, r, out, node):
    if out is None or out.kind != "arr":
        return r
    res = []
    for s, v in r:
        c = cont(E, s, v)
        b = E.c(s, out)
        if b.dt in ("i", "c") and c.dt == "f":
            E.emit("store_dtype", s, node, ref=out, base=b, v=c)
        E.write(s, out, c.r(dt=b.dt or c.dt), node, "out=")
        res.append((s, out))
    return res


def unknown_result(E, st, q, args, kwargs, node):
    d = E.deps_of(st, args + list(kwargs.values()))
    ts = [tm(E, st, cont(E, st, a) if isarr(a) else a) for a in args]
    t = T.mk("call", q, *(ts + [T.mk("kw", k, tm(E, st, v)) for k, v in sorted(kwargs.items())]))
    E.note("library function %s" % q, node)
    if q.split(".")[0] in ("numpy", "scipy") and any(isarr(a) for a in args) and not q.startswith(("scipy.optimize", "numpy.load", "numpy.save")):
        return E.arr(st, node, "unk", V("arr", NOCONST, t, deps=d))
    return V("any", term=t, deps=d)


# ---- builtins
@lib("builtins.locals", "builtins.vars")
def _locals(E, st, a, kw, node):
    fr = {}
    # free variables of an enclosing function that this function refers to are included by Python; only own locals matter here
    for n, v in st.frames[st.stack[-1]].items():
        if v.kind != "unbound" and not n.startswith("$"):
            fr[n] = v
    return V("locals", items=fr, term=T.mk("locals", st.stack[-1]))


@lib("builtins.len")
def _len(E, st, a, kw, node):
    v = a[0]
    its = E.items_of(st, v)
    if its is not None:
        return vnum(len(its))
    if v.kind == "str" and v.known:
        return vnum(len(v.const))
    if v.kind in ("none", "num", "func"):
        E.emit("bad_operand", st, node, op="len", v=v, other=None)
        E.throw(st, vany(), node)
        return []
    if v.kind == "arr":
        c = E.c(st, v)
        if c.axes:
            s = size_val(E, c.axes[0])
            return s if s.term is not None else s.r(term=T.mk("size", tm(E, st, c)))
        return V("num", NOCONST, T.mk("size", tm(E, st, c)), unit=ONE if not E.dim_count else TOP, dt="i", rng=(0, INF), deps=NODEPS)
    return V("num", NOCONST, T.mk("len", tm(E, st, v)), unit=ONE if not E.dim_count else TOP, dt="i", rng=(0, INF), deps=v.deps)


@lib("builtins.range", "numba.prange", "builtins.xrange")
def _range(E, st, a, kw, node):
    return V("range", extra={"a": tuple(a)}, deps=frozenset().union(*[x.deps for x in a]) if a else NODEPS,
             term=T.mk("range", *[tm(E, st, x) for x in a]))


@lib("builtins.enumerate")
def _enum(E, st, a, kw, node):
    its = E.items_of(st, a[0])
    if its is not None and not kw and len(a) == 1:
        return V("tuple", items=tuple(V("tuple", items=(vnum(i), x)) for i, x in enumerate(its)))
    return V("enum", extra={"v": a[0]}, deps=a[0].deps)


@lib("builtins.zip")
def _zip(E, st, a, kw, node):
    its = [E.items_of(st, x) for x in a]
    if all(i is not None for i in its) and a:
        return V("tuple", items=tuple(V("tuple", items=tuple(z)) for z in zip(*its)))
    return V("zip", items=tuple(a), deps=frozenset().union(*[x.deps for x in a]) if a else NODEPS)


@lib("numpy.ndenumerate")
def _ndenum(E, st, a, kw, node):
    return V("ndenum", extra={"v": a[0]}, deps=a[0].deps)


@lib("builtins.reversed", "builtins.list", "builtins.tuple", "builtins.sorted", "builtins.set", "builtins.iter", "builtins.frozenset")
def _seq(E, st, a, kw, node):
    if not a:
        o = E.alloc(st, node, "list", Cell("list", items=[]))
        return V("list", objs=frozenset([o]))
    its = E.items_of(st, a[0])
    if its is not None and not ("key" in kw):
        o = E.alloc(st, node, "list", Cell("list", items=list(its)))
        return V("list", objs=frozenset([o]), deps=a[0].deps)
    r = []
    for s, x in iter_elem(E, st, a[0], node, "seq@%s" % node.lineno):
        o = E.alloc(s, node, "list", Cell("list", items=None, elem=x))
        r.append((s, V("list", objs=frozenset([o]), deps=a[0].deps)))
    return r


@lib("builtins.dict", "collections.OrderedDict")
def _dict(E, st, a, kw, node):
    o = E.alloc(st, node, "dict", Cell("dict", items={T.const(k): v for k, v in kw.items()}, extra={"open": bool(a)}))
    if a and a[0].kind == "locals":
        return a[0]
    return V("dict", objs=frozenset([o]))


@lib("collections.defaultdict")
def _ddict(E, st, a, kw, node):
    dv = None
    if a and a[0].kind == "func" and isinstance(a[0].fn, tuple):
        n = a[0].fn[1]
        dv = {"builtins.float": vnum(0.0), "builtins.int": vnum(0), "builtins.list": vany()}.get(n)
    elif a and a[0].kind == "func":
        dv = vany()
    o = E.alloc(st, node, "ddict", Cell("dict", items={}, extra={"default": dv, "open": False}))
    return V("dict", objs=frozenset([o]))


@lib("builtins.hasattr")
def _hasattr(E, st, a, kw, node):
    r = has_attr(E, st, a[0], a[1].const if a[1].known else None)
    if r is None:
        return V("num", NOCONST, T.mk("hasattr", tm(E, st, a[0]), tm(E, st, a[1])), unit=ONE, dt="b", deps=a[0].deps,
                 extra={"hasattr": (a[0], a[1])})
    return vbool(r)


def own_attr(E, st, v, name):
    """Whether the dictionary of an object holds a name."""
    from .engine import RepoClass
    if v.kind != "inst" or len(v.objs) != 1:
        return None
    c = st.heap.get(next(iter(v.objs)))
    if c is None or c.attrs is None or not isinstance(c.cls, RepoClass):
        return None
    if name in c.attrs:
        return True if c.attrs[name].kind != "unbound" else None
    return None if "__getattr__" in c.cls.members or "__slots__" in c.cls.members else False


def has_attr(E, st, v, name):
    k = v.kind
    if name is None:
        return None
    if name == "__call__":
        if k in ("func", "class"):
            return True
        if k in ("num", "str", "none", "tuple", "list", "arr", "dict", "sp", "mod", "linop"):
            return False
        if k == "inst":
            (o,) = v.objs if len(v.objs) == 1 else (None,)
            c = st.heap.get(o)
            if c is not None and c.cls is not None:
                return E.class_member(c.cls, "__call__") is not None
        return None
    if name == "__len__":
        if k in ("tuple", "list", "str", "dict", "arr", "set", "range"):
            return True
        if k in ("num", "none", "func", "class", "mod"):
            return False
        return None
    if k == "mod":
        m = E.prog.modules.get(v.const)
        if m is not None:
            return name in m.bind
        m = L._real(v.const)
        return hasattr(m, name) if m else None
    if k == "none":
        return hasattr(None, name)
    if k == "num":
        return None
    if k == "inst" and len(v.objs) == 1:
        c = st.heap.get(next(iter(v.objs)))
        if c is not None and c.attrs is not None and name in c.attrs:
            return True
        if c is not None and c.cls is not None:
            m = E.class_member(c.cls, name)
            if m is not None:
                return None if m[0] == "?" else True
            return own_attr(E, st, v, name)
    if k == "locals":
        return hasattr({}, name)
    if k in ("tuple", "list", "str", "dict"):
        return hasattr({"tuple": (), "list": [], "str": "", "dict": {}}[k], name)
    if k == "arr":
        global _nd
        if _nd is None:
            _nd = _ndattrs()
        return name in _nd
    return None


@lib("builtins.callable")
def _callable(E, st, a, kw, node):
    r = has_attr(E, st, a[0], "__call__")
    if r is None:
        return V("num", NOCONST, T.mk("hasattr", tm(E, st, a[0]), T.const("__call__")), unit=ONE, dt="b", deps=a[0].deps)
    return vbool(r)


@lib("builtins.isinstance")
def _isinstance(E, st, a, kw, node):
    v = a[0]
    ts = E.items_of(st, a[1]) if a[1].kind == "tuple" else (a[1],)
    if ts is None:
        ts = (vany(),)
    rs = [_isa(E, st, v, t) for t in ts]
    if any(r is True for r in rs):
        return vbool(True)
    if all(r is False for r in rs):
        return vbool(False)
    return V("num", NOCONST, T.mk("isinstance", tm(E, st, v), tm(E, st, a[1])), unit=ONE, dt="b", deps=v.deps)


def _isa(E, st, v, t):
    if t.kind == "class":
        if v.kind == "inst":
            return None if len(v.objs) != 1 else (st.heap[next(iter(v.objs))].cls is t.fn or None)
        return False if v.kind in ("num", "str", "none", "arr", "tuple", "list", "func") else None
    if t.kind != "func" or not isinstance(t.fn, tuple):
        return None
    n = t.fn[1].split(".")[-1]
    k = v.kind
    if n == "str":
        return True if k == "str" else (None if k == "any" else False)
    if n in ("float", "int", "bool", "complex", "Number", "Real", "Integral", "integer", "floating"):
        if k != "num":
            return None if k == "any" else False
        if n in ("Number", "Real"):
            return True
        if n == "bool":
            return (v.dt == "b") if v.dt is not None else None
        if v.dt == "f":
            return n in ("float", "floating", "complex") if n != "complex" else False
        if v.dt in ("i", "b"):
            return n in ("int", "Integral", "integer")
        return None
    if n in ("tuple", "list", "dict", "set"):
        return True if k == n else (None if k == "any" else False)
    if n in ("ndarray",):
        return True if k == "arr" else (None if k == "any" else False)
    if n in ("Callable",):
        return has_attr(E, st, v, "__call__")
    if n == "LinearOperator":
        return True if k == "linop" else (None if k == "any" else False)
    return None


@lib("builtins.getattr")
def _getattr(E, st, a, kw, node):
    if a[1].known:
        h = has_attr(E, st, a[0], a[1].const)
        if h is False and len(a) > 2:
            return a[2]
        return E.getattr(st, a[0], a[1].const, node)
    return vany(a[0].deps)


@lib("builtins.setattr")
def _setattr(E, st, a, kw, node):
    if a[1].known:
        E.store_attr(st, a[0], a[1].const, a[2], node)
    return NONE


@lib("builtins.float", "numpy.float64", "numpy.float32")
def _float(E, st, a, kw, node):
    if not a:
        return vnum(0.0)
    v = a[0]
    if v.kind == "num":
        if v.known:
            return vnum(float(v.const), v.deps).r(unit=v.unit)
        return v.r(dt="f")
    if v.kind == "str" and v.known:
        try:
            return vnum(float(v.const))
        except Exception:
            pass
    if v.kind == "none":
        E.emit("bad_operand", st, node, op="float", v=v, other=None)
        E.throw(st, vany(), node)
        return []
    c = cont(E, st, v)
    return V("num" if v.kind in ("arr",) else "any", NOCONST, tm(E, st, c), unit=c.unit, dt="f", deps=c.deps, rng=c.rng)


@lib("builtins.int", "numpy.int64", "numpy.int32")
def _int(E, st, a, kw, node):
    if not a:
        return vnum(0)
    v = a[0]
    if v.kind == "num" and v.known and v.const == v.const and abs(v.const) != INF:
        return vnum(int(v.const), v.deps)
    c = cont(E, st, v)
    if c.dt == "i":
        return c.r(objs=NOOBJ)
    r = E.rng(st, c)
    return V("num", NOCONST, T.mk("call", "int", tm(E, st, c)), unit=c.unit, dt="i", deps=c.deps, idx=c.idx,
             rng=r if r is None else (r[0] if r[0] == -INF else int(r[0]), r[1] if r[1] == INF else int(r[1])))


@lib("builtins.bool")
def _bool(E, st, a, kw, node):
    t = E.truth(st, a[0]) if a else False
    if t is not None:
        return vbool(t, a[0].deps if a else NODEPS)
    v = a[0]
    if v.kind == "num" and v.dt == "b":
        return v
    return V("num", NOCONST, T.mk("call", "bool", tm(E, st, v)), unit=ONE, dt="b", deps=v.deps)


@lib("builtins.str", "builtins.repr")
def _str(E, st, a, kw, node):
    if a and a[0].known and a[0].kind in ("str",):
        return a[0]
    return V("str", term=T.mk("call", "str", *[tm(E, st, x) for x in a]), deps=E.deps_of(st, a))


@lib("builtins.print")
def _print(E, st, a, kw, node):
    return NONE


@lib("warnings.warn")
def _warn(E, st, a, kw, node):
    E.emit("warn", st, node, args=a)
    return NONE


@lib("builtins.type")
def _type(E, st, a, kw, node):
    return V("any", term=T.mk("type", tm(E, st, a[0])), deps=NODEPS)


@lib("builtins.id", "builtins.hash")
def _id(E, st, a, kw, node):
    return V("num", NOCONST, T.mk("id", tm(E, st, a[0])), dt="i", unit=ONE)


@lib("builtins.any", "builtins.all")
def _anyall(E, st, a, kw, node):
    return FN["numpy.all"](E, st, a, kw, node)


@lib("builtins.map")
def _map(E, st, a, kw, node):
    its = E.items_of(st, a[1]) if len(a) == 2 else None
    if its is not None:
        cur = [(st, [])]
        for x in its:
            cur = [(s2, acc + [v]) for s, acc in cur for s2, v in E.call_value(s, a[0], [x], {}, node)]
        return [(s, V("tuple", items=tuple(acc))) for s, acc in cur]
    return vany(E.deps_of(st, a))


@lib("functools.partial")
def _partial(E, st, a, kw, node):
    from .engine import Partial
    return V("func", fn=Partial(a[0], list(a[1:]), dict(kw)), term=T.mk("partial", *[tm(E, st, x) for x in a]))


@lib("builtins.max", "builtins.min")
def _maxmin(E, st, a, kw, node):
    q = "max" if (node_fn(node).endswith("max")) else "min"
    return _minmax(E, st, a, kw, node, q)


FN["builtins.max"] = lambda E, st, a, kw, node: _minmax(E, st, a, kw, node, "max")
FN["builtins.min"] = lambda E, st, a, kw, node: _minmax(E, st, a, kw, node, "min")


def node_fn(node):
    return ""


def _minmax(E, st, a, kw, node, q):
    key = kw.get("key")
    if len(a) == 1:
        v = a[0]
        its = E.items_of(st, v)
        if its is not None and key is None and its:
            a = list(its)
        else:
            if v.kind == "arr" and key is None:
                return FN["numpy." + q](E, st, [v], {}, node)
            res = []
            lid = "%s@%s" % (q, E.site(st, node))
            for s, x in iter_elem(E, st, v, node, lid):
                if key is not None:
                    for s2, kv in E.call_value(s, key, [x], {}, node):
                        E.emit("select", s2, node, how=q, elem=x, key=kv, it=v)
                        res.append((s2, x))
                else:
                    E.emit("select", s, node, how=q, elem=x, key=x, it=v)
                    res.append((s, x))
            return res
    if all(x.kind == "num" and x.known for x in a):
        c = (max if q == "max" else min)(x.const for x in a)
        w = [x for x in a if x.const == c][0]
        return w
    cs = [cont(E, st, x) for x in a]
    for x in cs:
        if x.kind in ("none", "str"):
            E.emit("bad_operand", st, node, op=q, v=x, other=None)
            E.throw(st, vany(), node)
            return []
    u = cs[0].unit
    for x in cs[1:]:
        unify(E, st, node, u, x.unit, "compared by %s()" % q)
        u = E.units.join(u, x.unit)
    rs = [E.rng(st, x) or (-INF, INF) for x in cs]
    rng = (min(r[0] for r in rs), min(r[1] for r in rs)) if q == "min" else (max(r[0] for r in rs), max(r[1] for r in rs))
    dt = cs[0].dt
    for x in cs[1:]:
        dt = join_dt(dt, x.dt)
    t = T.mk("call", q, *sorted([tm(E, st, x) for x in cs], key=lambda z: z.size * 0 + hash(T.show(z)) % 10007 if False else 0))
    T.KIND[t] = "s"
    for x in cs:
        xt = tm(E, st, x)
        if q == "min":
            st.facts[T.mk("le", t, xt)] = True
        else:
            st.facts[T.mk("le", xt, t)] = True
    idx = None
    ids = {x.idx for x in cs if x.idx not in (None, "0")}
    if len(ids) == 1:
        idx = ids.pop()
    return V("num", NOCONST, t, unit=u, dt=dt, rng=rng, deps=E.deps_of(st, list(a)), idx=idx, extra={q: tuple(cs)})


@lib("builtins.sum")
def _bsum(E, st, a, kw, node):
    its = E.items_of(st, a[0])
    if its is not None:
        cur = [(st, a[1] if len(a) > 1 else vnum(0))]
        for x in its:
            cur = [z for s, acc in cur for z in binop(E, s, "Add", acc, x, node)]
        return cur
    return FN["numpy.sum"](E, st, a[:1], {}, node)


@lib("builtins.round", "numpy.round")
def _round(E, st, a, kw, node):
    c = cont(E, st, a[0])
    return make(E, st, node, "round", V("num", NOCONST, T.mk("call", "round", tm(E, st, c)), unit=c.unit, dt=c.dt, axes=c.axes, deps=c.deps, rng=c.rng), isarr(a[0]))


@lib("builtins.slice")
def _slice(E, st, a, kw, node):
    a = list(a)
    if len(a) == 1:
        it = (NONE, a[0], NONE)
    else:
        it = tuple(a + [NONE] * (3 - len(a)))
    return V("slice", items=it)


@lib("builtins.pow")
def _pow(E, st, a, kw, node):
    return binop(E, st, "Pow", a[0], a[1], node)


@lib("builtins.open")
def _open(E, st, a, kw, node):
    return V("any", term=T.mk("file", *[tm(E, st, x) for x in a]), deps=E.deps_of(st, a))


@lib("builtins.super", "builtins.object")
def _super(E, st, a, kw, node):
    return vany()


# ---- creation
def shape_axes(E, st, v):
    if v.kind in ("tuple", "list"):
        its = E.items_of(st, v)
        if its is None:
            return None
        return tuple(axis_of(E, st, x) for x in its)
    if v.kind == "num":
        return (axis_of(E, st, v),)
    return None


def _fill(val):
    def f(E, st, a, kw, node):
        axes = shape_axes(E, st, arg(a, kw, 0, "shape"))
        dv = arg(a, kw, 1, "dtype")
        nd = dt_of(dv) if dv is not None else "f"
        if nd == "?":
            nd = None
        d = NODEPS
        if val is None:
            c = V("arr", NOCONST, T.mk("empty", E.site(st, node)), unit=POLY, dt=nd, axes=axes, idx="0")
        else:
            c = V("arr", NOCONST, T.const(val), unit=POLY if val == 0 else ONE, dt=nd, axes=axes, rng=(val, val), idx="0" if val == 0 else None)
        return fill_arr(E, st, node, c, val)
    return f


def fill_arr(E, st, node, c, val):
    """Arrays filled with a constant are named by the constant (they broadcast like it)."""
    t = c.term
    oid = E.alloc(st, node, "fill", Cell("arr", c))
    if t is not None and t.op != "const":
        T.KIND[t] = "a"
    return V("arr", objs=frozenset([oid]))


FN["numpy.zeros"] = _fill(0)
FN["numpy.ones"] = _fill(1)
FN["numpy.empty"] = _fill(None)


@lib("numpy.full")
def _full(E, st, a, kw, node):
    axes = shape_axes(E, st, arg(a, kw, 0, "shape"))
    v = cont(E, st, arg(a, kw, 1, "fill_value"))
    dv = arg(a, kw, 2, "dtype")
    return fill_arr(E, st, node, V("arr", NOCONST, tm(E, st, v), unit=v.unit, dt=dt_of(dv) if dv is not None else v.dt, axes=axes, rng=v.rng, deps=v.deps), None)


def _like(val):
    def f(E, st, a, kw, node):
        c = cont(E, st, a[0])
        dv = arg(a, kw, 1, "dtype")
        nd = dt_of(dv) if dv is not None and dv.kind != "none" else c.dt
        if nd == "?":
            nd = None
        t = T.const(val) if val is not None else T.mk("empty", E.site(st, node))
        x = V("arr", NOCONST, t, unit=POLY if val in (0, None) else ONE, dt=nd, axes=c.axes,
              rng=(val, val) if val is not None else None, idx="0" if val in (0, None) else None)
        if a[0].kind == "num":
            x = x.r(axes=())
        return fill_arr(E, st, node, x, val)
    return f


FN["numpy.zeros_like"] = _like(0)
FN["numpy.ones_like"] = _like(1)
FN["numpy.empty_like"] = _like(None)


@lib("numpy.full_like")
def _full_like(E, st, a, kw, node):
    c = cont(E, st, a[0])
    v = cont(E, st, arg(a, kw, 1, "fill_value"))
    if c.dt in ("i", "c") and v.dt == "f" and "dtype" not in kw:
        E.emit("store_dtype", st, node, ref=a[0], base=c, v=v)
    return fill_arr(E, st, node, V("arr", NOCONST, tm(E, st, v), unit=v.unit, dt=c.dt, axes=c.axes, rng=v.rng, deps=v.deps), None)


@lib("numpy.arange")
def _arange(E, st, a, kw, node):
    dv = kw.get("dtype")
    nd = dt_of(dv) if dv is not None else "i"
    d = E.deps_of(st, a)
    if len(a) == 1:
        ax = axis_of(E, st, a[0])
        b, k = base_axis(ax)
        return E.arr(st, node, "arange", V("arr", NOCONST, T.mk("arange", tm(E, st, a[0])), unit=ONE, dt=nd if a[0].dt != "f" else "f", axes=(ax,),
                                           idx=b if k <= 0 else b, rng=(0, INF), deps=d, extra={"perm": ax}))
    ax = None
    if len(a) == 2 and a[0].known and a[0].const == 1:
        b, k = base_axis(axis_of(E, st, a[1]))
        if b is not None and ":" not in str(b):
            k -= 1
            ax = b if k == 0 else "%s%s%d" % (b, "+" if k > 0 else "-", abs(k))
    return E.arr(st, node, "arange", V("arr", NOCONST, T.mk("arange", *[tm(E, st, x) for x in a]), unit=ONE, dt=nd, axes=(ax,) if ax else (None,), rng=(0, INF) if a[0].known and a[0].const >= 0 else None, deps=d))


@lib("numpy.asarray", "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.asarray_chkfinite", "numpy.atleast_1d", "numpy.require")
def _asarray(E, st, a, kw, node):
    v = a[0]
    dv = arg(a, kw, 1, "dtype") if True else None
    nd = dt_of(dv) if dv is not None and dv.kind != "none" else None
    c = cont(E, st, v)
    if nd == "?":
        nd = None
    dt = nd if nd is not None else c.dt
    if v.kind in ("none", "func"):
        return V("any", deps=v.deps)
    bases = NOOBJ
    if v.kind == "arr":
        bases = v.objs if not (nd is not None and c.dt is not None and nd != c.dt and c.dt != "c") else NOOBJ
    if v.kind == "arr" and bases and len(v.objs) >= 1 and (nd is None or nd == c.dt) and c.dt is not None and (c.dt != "c" or nd is None):
        if nd is None:
            return v          # the very same array when it already is one
    if v.kind == "sp":
        return V("any", term=c.term, deps=c.deps)
    if v.kind == "any":
        return E.arr(st, node, "as", V("arr", NOCONST, tm(E, st, c), unit=c.unit, dt=dt, deps=c.deps, axes=c.axes), v.objs)
    if nd == "i" and c.dt == "f":
        E.emit("truncate", st, node, base=c)
    ax = c.axes
    if v.kind == "num":
        ax = ("1",) if False else ()
    return E.arr(st, node, "as", c.r(kind="arr", dt=dt, axes=ax), bases)


@lib("numpy.array", "numpy.copy")
def _array(E, st, a, kw, node):
    v = arg(a, kw, 0, "object")
    c = cont(E, st, v)
    dv = arg(a, kw, 1, "dtype")
    nd = dt_of(dv) if dv is not None and dv.kind != "none" else None
    if nd == "?":
        nd = None
    cp = kw.get("copy")
    bases = NOOBJ
    if cp is not None and not (cp.known and cp.const) and v.kind == "arr":
        bases = v.objs
    if nd == "i" and c.dt == "f":
        E.emit("truncate", st, node, base=c)
    if v.kind == "sp":
        return V("any", term=c.term, deps=c.deps)
    return E.arr(st, node, "array", c.r(kind="arr", dt=nd if nd is not None else c.dt, axes=c.axes if v.kind != "num" else (), extra=None), bases)


@lib("numpy.eye", "numpy.identity")
def _eye(E, st, a, kw, node):
    ax = axis_of(E, st, a[0])
    return E.arr(st, node, "eye", V("arr", NOCONST, T.mk("eye", tm(E, st, a[0])), unit=ONE, dt="f", axes=(ax, ax)))


@lib("numpy.linspace", "numpy.logspace")
def _linspace(E, st, a, kw, node):
    cs = [cont(E, st, x) for x in a[:2]]
    ax = axis_of(E, st, a[2]) if len(a) > 2 else "50"
    return E.arr(st, node, "lin", V("arr", NOCONST, T.mk("call", "linspace", *[tm(E, st, x) for x in a]), unit=cs[0].unit, dt="f", axes=(ax,), deps=E.deps_of(st, a)))


@lib("numpy.copyto")
def _copyto(E, st, a, kw, node):
    c, v = E.c(st, a[0]), cont(E, st, a[1])
    if c.dt in ("i", "c") and v.dt == "f":
        E.emit("store_dtype", st, node, ref=a[0], base=c, v=v)
    E.write(st, a[0], v.r(dt=c.dt, axes=c.axes, term=v.term if "where" not in kw else E.fresh(st, node)), node, "numpy.copyto", v=a[1])
    return NONE


@lib("numpy.put", "numpy.place", "numpy.putmask", "numpy.put_along_axis", "numpy.fill_diagonal")
def _put(E, st, a, kw, node):
    c = E.c(st, a[0])
    E.write(st, a[0], c.r(term=E.fresh(st, node)), node, "numpy in-place store")
    return NONE


@lib("numpy.add.at", "numpy.subtract.at", "op.Add.at", "op.Sub.at")
def _at(E, st, a, kw, node):
    c = E.c(st, a[0])
    v = cont(E, st, a[2])
    pc = cont(E, st, a[1])
    L.idx_event(E, st, node, c, 0, pc.r(kind="num"), "store", a[0])
    if c.unit == POLY:
        c = c.r(unit=v.unit)
    else:
        unify(E, st, node, c.unit, v.unit, "accumulated")
    E.write(st, a[0], c.r(term=E.fresh(st, node), deps=c.deps | v.deps | pc.deps), node, "ufunc.at", index=a[1], v=a[2], aug=("Add", a[2]))
    return NONE


# ---- element-wise functions
def elementwise(E, st, v, node, term, unit, rng=None, dt="f"):
    c = cont(E, st, v)
    kind = "num" if v.kind in ("num", "arr", "list", "tuple") else "any"
    return make(E, st, node, "ew", V(kind, NOCONST, term, unit=unit, dt=dt, axes=c.axes, rng=rng, deps=c.deps, fmt=c.fmt), isarr(v) and v.kind != "sp") \
        if v.kind != "sp" else sp_new(E, st, node, V("sp", NOCONST, term, unit=unit, dt=dt, axes=c.axes, deps=c.deps, fmt=c.fmt))


def chk(E, st, node, v):
    if v.kind in ("none", "str", "func"):
        E.emit("bad_operand", st, node, op="function", v=v, other=None)


@lib("numpy.abs", "builtins.abs")
def _abs(E, st, a, kw, node):
    v = a[0]
    chk(E, st, node, v)
    if v.kind == "num" and v.known:
        return vnum(abs(v.const), v.deps).r(unit=v.unit)
    c = cont(E, st, v)
    r = E.rng(st, c)
    rng = (0, INF)
    if r is not None:
        m = max(abs(r[0]), abs(r[1]))
        rng = (0 if r[0] <= 0 <= r[1] else min(abs(r[0]), abs(r[1])), m)
    t = tm(E, st, c)
    if t.op == "neg":
        t = t.args[0]
    return elementwise(E, st, v, node, T.mk("call", "abs", t), c.unit, rng, c.dt)


@lib("numpy.sign")
def _sign(E, st, a, kw, node):
    c = cont(E, st, a[0])
    r = E.rng(st, c)
    rng = (-1, 1)
    if r is not None and r[0] >= 0:
        rng = (0, 1)
    return elementwise(E, st, a[0], node, T.mk("call", "sign", tm(E, st, c)), ONE, rng, c.dt if c.dt in ("i", "c") else "f")


@lib("numpy.copysign")
def _copysign(E, st, a, kw, node):
    if len(a) < 2:
        return vany()
    m, c = cont(E, st, a[0]), cont(E, st, a[1])
    r = E.rng(st, m)
    k = None if r is None else max(abs(r[0]), abs(r[1]))
    ref = a[0] if isarr(a[0]) else a[1]
    v = elementwise(E, st, ref, node, T.mk("call", "copysign", tm(E, st, m), tm(E, st, c)), m.unit, None if k is None else (-k, k), "f")
    if v.kind == "num":
        v = v.r(deps=m.deps | c.deps)
    return v


@lib("numpy.sqrt")
def _sqrt(E, st, a, kw, node):
    v = a[0]
    chk(E, st, node, v)
    c = cont(E, st, v)
    if v.kind == "num" and v.known and v.const >= 0:
        return vnum(float(v.const) ** 0.5, v.deps).r(unit=E.units.pow(v.unit, Fraction(1, 2)) if v.unit not in (TOP, POLY) else v.unit)
    r = E.rng(st, c)
    rng = (0, INF) if r is None else (max(r[0], 0) ** 0.5, max(r[1], 0) ** 0.5 if r[1] != INF else INF)
    return elementwise(E, st, v, node, T.mk("pow", tm(E, st, c), T.const(0.5)), E.units.pow(c.unit, Fraction(1, 2)), rng)


@lib("numpy.square")
def _square(E, st, a, kw, node):
    c = cont(E, st, a[0])
    return elementwise(E, st, a[0], node, T.mk("pow", tm(E, st, c), T.const(2)), E.units.pow(c.unit, 2), rpow(E.rng(st, c), 2) or (0, INF), c.dt)


@lib("numpy.negative")
def _negf(E, st, a, kw, node):
    return unop(E, st, "USub", a[0], node)


@lib("numpy.logical_not", "numpy.invert", "numpy.bitwise_not")
def _notf(E, st, a, kw, node):
    return unop(E, st, "Invert", a[0], node)


def _transc(name, rngf=None):
    def f(E, st, a, kw, node):
        v = a[0]
        chk(E, st, node, v)
        c = cont(E, st, v)
        if not E.units.unify(c.unit, ONE):
            E.emit("unit", st, node, a=E.units.norm(c.unit), b=ONE, what="passed to %s()" % name)
        r = E.rng(st, c)
        E.emit("transc", st, node, name=name, v=c, rng=r)
        return elementwise(E, st, v, node, T.mk("call", name, tm(E, st, c)), ONE, rngf(r) if rngf else None)
    return f


def _rexp(r):
    import math
    if r is None:
        return (0, INF)

    def e(x):
        try:
            return math.exp(x)
        except OverflowError:
            return INF
    return (0 if r[0] == -INF else e(r[0]), INF if r[1] == INF else e(r[1]))


FN["numpy.exp"] = _transc("exp", _rexp)
FN["numpy.expm1"] = _transc("expm1", lambda r: None if r is None else (-1, _rexp(r)[1]))
FN["numpy.tanh"] = _transc("tanh", lambda r: (-1, 1))
FN["numpy.exp2"] = _transc("exp2", lambda r: (0, INF))
FN["numpy.log1p"] = _transc("log1p", lambda r: None if r is None or r[0] <= -1 else (math.log1p(r[0]), INF if r[1] == INF else math.log1p(r[1])))
FN["numpy.log"] = _transc("log", lambda r: None if r is None or r[0] <= 0 else (math.log(r[0]), INF if r[1] == INF else math.log(r[1])))
for _n2 in ("log2", "log10", "sinh", "cosh", "sin", "cos", "arctan", "arctanh"):
    FN["numpy." + _n2] = _transc(_n2)
def _rexpit(r):
    def f(x):
        if x <= -745:
            return 0
        return 1 / (1 + math.exp(-x))
    return (0, 1) if r is None else (f(r[0]), f(r[1]))


FN["scipy.special.expit"] = _transc("expit", _rexpit)
FN["scipy.special.log_expit"] = _transc("log_expit", lambda r: (-INF, 0))
FN["numpy.logaddexp"] = lambda E, st, a, kw, node: _pairwise(E, st, a, node, "logaddexp")
FN["scipy.special.logsumexp"] = _transc("logsumexp")


@lib("numpy.isnan", "numpy.isfinite", "numpy.isinf", "math.isnan", "math.isfinite", "math.isinf")
def _isnan(E, st, a, kw, node):
    c = cont(E, st, a[0])
    return elementwise(E, st, a[0], node, T.mk("call", "isnan", tm(E, st, c)), ONE, None, "b")


@lib("numpy.floor", "numpy.ceil", "numpy.rint", "math.floor", "math.ceil")
def _floor(E, st, a, kw, node):
    c = cont(E, st, a[0])
    return elementwise(E, st, a[0], node, T.mk("call", "floor", tm(E, st, c)), c.unit, c.rng, "f")


def _pairwise(E, st, a, node, name, rngf=None):
    ca, cb = cont(E, st, a[0]), cont(E, st, a[1])
    chk(E, st, node, a[0])
    chk(E, st, node, a[1])
    unify(E, st, node, ca.unit, cb.unit, "combined by %s()" % name)
    arr = isarr(a[0]) or isarr(a[1])
    axes = bcast(E, st, node, ca if isarr(a[0]) else ca.r(axes=None), cb if isarr(a[1]) else cb.r(axes=None), name) if arr else None
    ra, rb = E.rng(st, ca) or (-INF, INF), E.rng(st, cb) or (-INF, INF)
    rng = rngf(ra, rb) if rngf else None
    kind = "num" if not (a[0].kind == "any" or a[1].kind == "any") else "any"
    t = T.mk("call", name, tm(E, st, ca), tm(E, st, cb))
    r = V(kind, NOCONST, t, unit=E.units.join(ca.unit, cb.unit), dt=join_dt(ca.dt, cb.dt), axes=axes, rng=rng, deps=ca.deps | cb.deps,
          extra={{"fmax": "max", "fmin": "min"}.get(name, name): (ca.r(objs=NOOBJ), cb.r(objs=NOOBJ))})
    if not arr:
        if name == "fmin":
            st.facts[T.mk("le", t, tm(E, st, ca))] = True
            st.facts[T.mk("le", t, tm(E, st, cb))] = True
        if name == "fmax":
            st.facts[T.mk("le", tm(E, st, ca), t)] = True
            st.facts[T.mk("le", tm(E, st, cb), t)] = True
    return one(st, make(E, st, node, name, r.r(extra=None) if arr else r, arr))


FN["numpy.fmax"] = lambda E, st, a, kw, node: _pairwise(E, st, a, node, "fmax", lambda x, y: (max(x[0], y[0]), max(x[1], y[1])))
FN["numpy.fmin"] = lambda E, st, a, kw, node: _pairwise(E, st, a, node, "fmin", lambda x, y: (min(x[0], y[0]), min(x[1], y[1])))
FN["numpy.hypot"] = lambda E, st, a, kw, node: _pairwise(E, st, a, node, "hypot", lambda x, y: (0, INF))


@lib("numpy.clip")
def _clip(E, st, a, kw, node):
    v = a[0]
    c = cont(E, st, v)
    lo = arg(a, kw, 1, "a_min", kw.get("min"))
    hi = arg(a, kw, 2, "a_max", kw.get("max"))
    u = c.unit
    d = c.deps
    rng = E.rng(st, c) or (-INF, INF)
    ts = [tm(E, st, c)]
    dt = c.dt
    for x, nme in ((lo, "lo"), (hi, "hi")):
        if x is None or x.kind == "none":
            ts.append(T.const(None))
            continue
        cx = cont(E, st, x)
        unify(E, st, node, u, cx.unit, "clipped")
        u = E.units.join(u, cx.unit)
        d = d | cx.deps
        dt = join_dt(dt, cx.dt)
        rx = E.rng(st, cx) or (-INF, INF)
        if nme == "lo":
            rng = (max(rng[0], rx[0]), max(rng[1], rx[0]))
        else:
            rng = (min(rng[0], rx[1]), min(rng[1], rx[1]))
        ts.append(tm(E, st, cx))
    t = T.mk("call", "clip", *ts)
    cl = tuple(None if x is None or x.kind == "none" else cont(E, st, x).r(objs=NOOBJ) for x in (lo, hi))
    return make(E, st, node, "clip", V("num", NOCONST, t, unit=u, dt=dt, axes=c.axes, rng=rng, deps=d), isarr(v))


@lib("numpy.where")
def _where(E, st, a, kw, node):
    if len(a) == 1:
        return FN["numpy.nonzero"](E, st, a, kw, node)
    m, x, y = [cont(E, st, z) for z in a[:3]]
    unify(E, st, node, x.unit, y.unit, "selected by where()")
    xr, yr = x, y
    axes = m.axes or x.axes or y.axes
    rng, arms = None, []
    for z, pol in ((x, True), (y, False)):
        r = E.rng(st, z)
        iv = mask_interval(E, st, m, z.term, pol) if z.term is not None else None
        if iv is not None:
            r = iv if r is None else (max(r[0], iv[0]), min(r[1], iv[1]))
        arms.append(r)
    if None not in arms:
        rng = (min(arms[0][0], arms[1][0]), max(arms[0][1], arms[1][1]))
    return make(E, st, node, "where", V("num", NOCONST, T.mk("call", "where", tm(E, st, m), tm(E, st, x), tm(E, st, y)),
                                        unit=E.units.join(x.unit, y.unit), dt=join_dt(x.dt, y.dt), axes=axes, rng=rng,
                                        deps=m.deps | x.deps | y.deps), True)


# ---- reductions
def reduce_sum(E, st, c, ax, node, how, two_d=False, isarr_=True):
    t0 = tm(E, st, c)
    d = c.deps
    axes = c.axes
    if ax is not None and ax.kind == "num" and ax.known and axes is not None and len(axes) > 1:
        k = ax.const
        red = axes[k]
        rest = tuple(x for i, x in enumerate(axes) if i != (k % len(axes)))
        if two_d:
            rest = ("1",) + rest if k % 2 == 0 else rest + ("1",)
        f = dim_factor(E, red)
        u = E.units.mul(c.unit, E.units.div(f, size_unit(E, red))) if how == "mean" else E.units.mul(c.unit, f)
        return E.arr(st, node, how, V("arr", NOCONST, T.mk("call", how, t0, T.const(k)), unit=u, dt="f" if how == "mean" else c.dt, axes=rest, deps=d))
    if ax is not None and ax.kind == "num" and not (axes is not None and len(axes) == 1):
        return E.arr(st, node, how, V("arr", NOCONST, T.mk("call", how, t0, tm(E, st, ax)), unit=c.unit if not E.dim_count else TOP, dt=c.dt, axes=("1", None) if two_d else None, deps=d))
    f = ONE
    for x in (axes or ()):
        f = E.units.mul(f, dim_factor(E, x))
        if how == "mean":
            f = E.units.div(f, size_unit(E, x))
    if axes is None and E.dim_count and how != "mean":
        f = TOP
    u = E.units.mul(c.unit, f)
    s = T.mk("sum", t0, total_size(E, c).term or T.mk("size", t0))
    T.KIND[s] = "s"
    t = s
    if how == "mean":
        t = T.mk("div", s, total_size(E, c).term or T.mk("size", t0))
        T.KIND[t] = "s"
    rng = None
    r = E.rng(st, c)
    if r is not None:
        if r[0] >= 0:
            rng = (0, INF if how == "sum" else r[1])
        if how == "mean":
            rng = r
    return V("num", NOCONST, t, unit=u, dt="f" if how == "mean" else ("i" if c.dt == "b" else c.dt), rng=rng, deps=d)


@lib("numpy.sum", "numpy.nansum")
def _sum(E, st, a, kw, node):
    v = a[0]
    if v.kind == "num":
        return v
    if v.kind == "sp":
        return sp_method(E, st, v, "sum", a[1:], kw, node, NODEPS)
    c = cont(E, st, v)
    return reduce_sum(E, st, c, arg(a, kw, 1, "axis"), node, "sum")


@lib("numpy.mean", "numpy.average", "numpy.nanmean")
def _mean(E, st, a, kw, node):
    v = a[0]
    if v.kind == "num":
        return v
    c = cont(E, st, v)
    if "weights" in kw:
        return unknown_result(E, st, "numpy.average", a, kw, node)
    return reduce_sum(E, st, c, arg(a, kw, 1, "axis"), node, "mean")


def _red(name, unitf=None, dt=None, rngf=None):
    def f(E, st, a, kw, node):
        v = a[0]
        c = cont(E, st, v)
        if v.kind == "num":
            return v
        u = c.unit if unitf is None else unitf(c.unit)
        ax = arg(a, kw, 1, "axis")
        t = T.mk("call", name, tm(E, st, c), *([tm(E, st, ax)] if ax is not None else []))
        r = E.rng(st, c)
        if ax is not None and ax.kind == "num" and c.axes is not None and len(c.axes) > 1 and ax.known:
            rest = tuple(x for i, x in enumerate(c.axes) if i != ax.const % len(c.axes))
            return E.arr(st, node, name, V("arr", NOCONST, t, unit=u, dt=dt or c.dt, axes=rest, deps=c.deps, rng=r))
        T.KIND[t] = "s"
        return V("num", NOCONST, t, unit=u, dt=dt or c.dt, rng=rngf(r) if rngf else r, deps=c.deps)
    return f


FN["numpy.max"] = _red("max")
FN["numpy.min"] = _red("min")
FN["numpy.median"] = _red("median")
FN["numpy.std"] = _red("std", rngf=lambda r: (0, INF))
FN["numpy.ptp"] = _red("ptp", rngf=lambda r: (0, INF))
FN["numpy.any"] = _red("any", lambda u: ONE, "b", lambda r: None)
FN["numpy.all"] = _red("all", lambda u: ONE, "b", lambda r: None)
FN["numpy.prod"] = _red("prod", lambda u: u if u in (POLY,) or u == ONE else TOP)
FN["numpy.count_nonzero"] = _red("count_nonzero", lambda u: ONE, "i", lambda r: (0, INF))


def _argred(name):
    def f(E, st, a, kw, node):
        c = cont(E, st, a[0])
        t = T.mk("call", name, tm(E, st, c))
        T.KIND[t] = "s"
        return V("num", NOCONST, t, unit=ONE, dt="i", idx=c.axes[0] if c.axes and len(c.axes) == 1 else None, rng=(0, INF), deps=c.deps,
                 extra={"arg": name})
    return f


FN["numpy.argmax"] = _argred("argmax")
FN["numpy.argmin"] = _argred("argmin")


@lib("numpy.argsort")
def _argsort(E, st, a, kw, node):
    c = cont(E, st, a[0])
    return E.arr(st, node, "argsort", V("arr", NOCONST, T.mk("call", "argsort", tm(E, st, c)), unit=ONE, dt="i", axes=c.axes, idx=c.axes[0] if c.axes else None, deps=c.deps))


@lib("numpy.sort", "numpy.cumsum", "numpy.unique", "numpy.conj", "numpy.flip", "numpy.roll", "numpy.nan_to_num", "numpy.partition")
def _sort(E, st, a, kw, node):
    c = cont(E, st, a[0])
    return E.arr(st, node, "sorted", V("arr", NOCONST, T.mk("call", "sort" if True else "", tm(E, st, c), *[tm(E, st, x) for x in a[1:]]), unit=c.unit, dt=c.dt, axes=c.axes, rng=c.rng, deps=c.deps))


@lib("numpy.cumsum")
def _cumsum(E, st, a, kw, node):
    c = cont(E, st, a[0])
    return E.arr(st, node, "cumsum", V("arr", NOCONST, T.mk("call", "cumsum", tm(E, st, c)), unit=c.unit, dt=c.dt if c.dt != "b" else "i", axes=c.axes, deps=c.deps))


@lib("numpy.diff")
def _diff(E, st, a, kw, node):
    c = cont(E, st, a[0])
    ax = kw.get("axis", a[2] if len(a) > 2 else None)
    k = ax.const if ax is not None and ax.known else -1
    axes = None
    if c.axes is not None and isinstance(k, int) and -len(c.axes) <= k < len(c.axes):
        l = list(c.axes)
        if l[k] is not None and ":" not in l[k] and "*" not in l[k] and "|" not in l[k]:
            b, q = base_axis(l[k])
            q -= 1
            l[k] = b if q == 0 else "%s%s%d" % (b, "+" if q > 0 else "-", abs(q))
        else:
            l[k] = None
        axes = tuple(l)
    E.emit("diff", st, node, base=c, axis=ax)
    return E.arr(st, node, "diff", V("arr", NOCONST, T.mk("call", "diff", tm(E, st, c), T.const(k)), unit=c.unit, dt=c.dt, axes=axes, deps=c.deps))


@lib("numpy.nonzero", "numpy.flatnonzero", "numpy.argwhere")
def _nonzero(E, st, a, kw, node):
    c = cont(E, st, a[0])
    r = E.arr(st, node, "nz", V("arr", NOCONST, T.mk("call", "nonzero", tm(E, st, c)), unit=ONE, dt="i", axes=(None,), idx=c.axes[0] if c.axes else None, rng=(0, INF), deps=c.deps))
    return V("tuple", items=(r,), deps=c.deps)


FN["numpy.flatnonzero"] = lambda E, st, a, kw, node: _nonzero(E, st, a, kw, node).items[0]


@lib("numpy.dot", "numpy.vdot", "safe_sparse_dot", "numpy.matvec", "numpy.vecdot")
def _dot(E, st, a, kw, node):
    return matmul(E, st, a[0], a[1], node)


@lib("numpy.outer")
def _outer(E, st, a, kw, node):
    ca, cb = cont(E, st, a[0]), cont(E, st, a[1])
    ax = None
    if ca.axes and cb.axes:
        xa = [x for x in ca.axes if x != "1"] or ["1"]
        xb = [x for x in cb.axes if x != "1"] or ["1"]
        if len(xa) == 1 and len(xb) == 1:
            ax = (xa[0], xb[0])
    return E.arr(st, node, "outer", V("arr", NOCONST, T.mk("outer", tm(E, st, ca), tm(E, st, cb)), unit=E.units.mul(ca.unit, cb.unit), dt=join_dt(ca.dt, cb.dt), axes=ax, deps=ca.deps | cb.deps))


@lib("numpy.linalg.norm")
def _norm(E, st, a, kw, node):
    v = a[0]
    chk(E, st, node, v)
    c = cont(E, st, v)
    o = arg(a, kw, 1, "ord")
    t0 = tm(E, st, c)
    f = ONE
    for x in (c.axes or ()):
        f = E.units.mul(f, dim_factor(E, x))
    if o is not None and o.kind == "num" and not (o.known and o.const == 2):
        t = T.mk("call", "norm", t0, tm(E, st, o))
        u = c.unit
    elif "axis" in kw:
        return E.arr(st, node, "norm", V("arr", NOCONST, T.mk("call", "norm_ax", t0, tm(E, st, kw["axis"])), unit=c.unit, dt="f", deps=c.deps, rng=(0, INF)))
    else:
        dd = T.mk("dot", t0, t0)
        T.KIND[dd] = "s"
        t = T.mk("pow", dd, T.const(0.5))
        u = E.units.mul(c.unit, E.units.pow(f, Fraction(1, 2)))
    T.KIND[t] = "s"
    k = "num" if v.kind != "any" else "any"
    return V("num", NOCONST, t, unit=u, dt="f", rng=(0, INF), deps=c.deps)


@lib("sklearn.utils.extmath.row_norms")
def _row_norms(E, st, a, kw, node):
    c = cont(E, st, a[0])
    sq = kw.get("squared", a[1] if len(a) > 1 else vbool(False))
    p = 2 if sq.known and sq.const else 1
    return E.arr(st, node, "rn", V("arr", NOCONST, T.mk("call", "row_norms%d" % p, tm(E, st, c)), unit=E.units.pow(c.unit, p), dt="f", axes=(c.axes[0],) if c.axes else None, deps=c.deps, rng=(0, INF)))


@lib("scipy.sparse.linalg.svds", "numpy.linalg.svd", "scipy.sparse.linalg.svd")
def _svd(E, st, a, kw, node):
    c = cont(E, st, a[0])
    x = c.axes if c.axes is not None and len(c.axes) == 2 else (None, None)
    k = kw.get("k")
    kk = "1" if k is not None and k.known and k.const == 1 else ("K(%s,%s)" % tuple(sorted(str(z) for z in x)))
    f = ONE
    for z in x:
        f = E.units.mul(f, E.units.pow(dim_factor(E, z), Fraction(1, 2)) if dim_factor(E, z) != ONE else ONE)
    su = E.units.mul(c.unit, f)
    t = tm(E, st, c)
    nm = "svd" + ("" if k is None else "s")
    s = E.arr(st, node, "s", V("arr", NOCONST, T.mk("call", nm + ".s", t), unit=su, dt="f", axes=(kk,), rng=(0, INF), deps=c.deps))
    rs = kw.get("return_singular_vectors", kw.get("compute_uv"))
    if rs is not None and rs.known and rs.const is False:
        return s
    u = E.arr(st, node, "u", V("arr", NOCONST, T.mk("call", nm + ".u", t), unit=ONE, dt="f", axes=(x[0], kk), deps=c.deps))
    vt = E.arr(st, node, "vt", V("arr", NOCONST, T.mk("call", nm + ".vt", t), unit=ONE, dt="f", axes=(kk, x[1]), deps=c.deps))
    if _truthy(kw.get("overwrite_a")) and a[0].kind == "arr":
        E.write(st, a[0], c.r(term=E.fresh(st, node)), node, "overwrite_a")
    return V("tuple", items=(u, s, vt))


@lib("scipy.linalg.svdvals", "numpy.linalg.svdvals")
def _svdvals(E, st, a, kw, node):
    c = cont(E, st, a[0])
    return E.arr(st, node, "s", V("arr", NOCONST, T.mk("call", "svd.s", tm(E, st, c)), unit=c.unit, dt="f", rng=(0, INF), deps=c.deps))


# ---- shapes
def shape_arg(E, st, a, kw, i):
    """(axes, raw items) of a shape argument given as a tuple or as separate integers."""
    rest = a[i:]
    if not rest:
        s = kw.get("shape", kw.get("newshape"))
        rest = [s] if s is not None else []
    if len(rest) == 1 and rest[0].kind in ("tuple", "list"):
        its = E.items_of(st, rest[0])
        return its
    if rest and all(x.kind == "num" for x in rest):
        return tuple(rest)
    return None


@lib("numpy.reshape")
def _reshape(E, st, a, kw, node):
    v = a[0]
    c = cont(E, st, v)
    its = shape_arg(E, st, a, kw, 1)
    order = kw.get("order")
    axes = None
    if its is not None:
        ax = []
        for x in its:
            if x.known and x.const == -1:
                ax.append("-1")
            else:
                ax.append(axis_of(E, st, x))
        if "-1" in ax:
            if len(ax) == 1:
                ax = list(flat_content(E, c).axes or (None,))
            else:
                src = []
                for z in (c.axes or (None,)):
                    src += str(z).split("*") if z is not None else [None]
                for z in ax:
                    if z != "-1" and z in src:
                        src.remove(z)
                ax = [("*".join(src) if src and None not in src else ("1" if not src else None)) if z == "-1" else z for z in ax]
        axes = tuple(ax)
    E.emit("reshape", st, node, base=c, axes=axes, order=order)
    t = tm(E, st, c)
    if axes is not None and len(axes) == 1:
        nt = flat_content(E, c).term if c.axes is not None and len(c.axes) > 1 else t
    else:
        nt = T.mk("reshape", t, *[T.const(x) for x in (axes or ("?",))])
    if nt is None:
        nt = t
    if order is not None and order.known and order.const in ("F",):
        nt = T.mk("call", "reorder", nt)
    if v.kind not in ("arr",):
        return E.arr(st, node, "rs", c.r(kind="arr", axes=axes, term=nt, extra=None))
    return E.arr(st, node, "rs", c.r(axes=axes, term=nt, extra=None), v.objs)


@lib("numpy.ravel")
def _ravel(E, st, a, kw, node):
    v = a[0]
    c = cont(E, st, v)
    order = arg(a, kw, 1, "order")
    fc = flat_content(E, c)
    if order is not None and order.known and order.const == "F" and c.axes is not None and len(c.axes) == 2:
        fc = fc.r(axes=("*".join(reversed([x for x in c.axes if x is not None])),), term=T.mk("call", "ravelF", tm(E, st, c)))
    if v.kind == "num":
        return E.arr(st, node, "rv", c.r(axes=("1",)))
    if v.kind == "any":
        return E.arr(st, node, "rv", V("arr", NOCONST, tm(E, st, v), unit=v.unit, deps=v.deps, axes=(None,)))
    return E.arr(st, node, "rv", fc, v.objs)


@lib("numpy.squeeze")
def _squeeze(E, st, a, kw, node):
    v = a[0]
    c = cont(E, st, v)
    ax = tuple(x for x in c.axes if x != "1") if c.axes is not None else None
    return E.arr(st, node, "sq", c.r(kind="arr", axes=ax), v.objs)


@lib("numpy.transpose")
def _transpose(E, st, a, kw, node):
    if a[0].kind in ("arr", "sp"):
        return transpose(E, st, a[0], E.c(st, a[0]), node)
    return vany(a[0].deps)


@lib("numpy.concatenate", "numpy.hstack", "numpy.append")
def _concat(E, st, a, kw, node):
    its = E.items_of(st, a[0]) if a[0].kind in ("tuple", "list") else None
    if its is None:
        c = cont(E, st, a[0])
        d = c.deps | E.deps_of(st, list(a))
        for o in a[0].objs:
            e = st.heap[o].elem if o in st.heap else None
            if e is not None:
                ce = cont(E, st, e)
                d = d | ce.deps
                if ce.kind in ("arr", "sp", "num"):
                    c = ce
        return E.arr(st, node, "cat", V("arr", NOCONST, T.mk("call", "concatenate", tm(E, st, c)), unit=c.unit, dt=c.dt, idx=c.idx, rng=c.rng, deps=d))
    cs = [cont(E, st, x) for x in its]
    u = cs[0].unit
    dt = cs[0].dt
    d = NODEPS
    idx = cs[0].idx
    rng = cs[0].rng
    for x in cs:
        u = E.units.join(u, x.unit) if E.units.unify(u, x.unit) else TOP
        dt = join_dt(dt, x.dt)
        d = d | x.deps
        if idx in (None, "0"):
            idx = x.idx
        rng = None if rng is None or x.rng is None else (min(rng[0], x.rng[0]), max(rng[1], x.rng[1]))
    ax = None
    ks = [x.axes[0] if x.axes and len(x.axes) == 1 else None for x in cs]
    if all(k is not None for k in ks):
        names = [k for k in ks if not k.isdigit()]
        num = sum(int(k) for k in ks if k.isdigit())
        if len(names) == 1 and ":" not in names[0]:
            b, q = base_axis(names[0])
            q += num
            ax = (b if q == 0 else "%s%s%d" % (b, "+" if q > 0 else "-", abs(q)),)
        elif names:
            ax = ("+".join(names) + ("" if not num else "++%d" % num),)
        else:
            ax = (str(num),)
    E.emit("concat", st, node, parts=cs)
    return E.arr(st, node, "cat", V("arr", NOCONST, T.mk("call", "concatenate", *[tm(E, st, x) for x in cs]), unit=u, dt=dt, axes=ax, idx=idx, rng=rng, deps=d))


@lib("numpy.vstack", "numpy.stack", "numpy.column_stack")
def _vstack(E, st, a, kw, node):
    c = cont(E, st, a[0])
    return E.arr(st, node, "vst", V("arr", NOCONST, T.mk("call", "vstack", tm(E, st, c)), unit=c.unit, dt=c.dt, deps=c.deps))


@lib("scipy.sparse.vstack", "scipy.sparse.hstack")
def _spstack(E, st, a, kw, node):
    c = cont(E, st, a[0])
    its = E.items_of(st, a[0])
    E.emit("concat", st, node, parts=[cont(E, st, x) for x in its] if its else [])
    f = kw.get("format")
    return sp_new(E, st, node, V("sp", NOCONST, T.mk("call", "spvstack", *([tm(E, st, cont(E, st, x)) for x in its] if its else [tm(E, st, c)])), unit=c.unit, dt=c.dt, deps=c.deps, fmt=f.const if f is not None and f.known else None))


@lib("numpy.take")
def _take(E, st, a, kw, node):
    return load_subscript(E, st, a[0], a[1], node)


@lib("numpy.repeat", "numpy.tile")
def _repeat(E, st, a, kw, node):
    c = cont(E, st, a[0])
    return E.arr(st, node, "rep", V("arr", NOCONST, T.mk("call", "repeat", tm(E, st, c)), unit=c.unit, dt=c.dt, deps=c.deps, idx=c.idx))


@lib("numpy.expand_dims")
def _expand(E, st, a, kw, node):
    c = cont(E, st, a[0])
    return E.arr(st, node, "ed", c.r(kind="arr", axes=None), a[0].objs)


# ---- sparse
for _f in ("csr", "csc", "coo", "dia", "lil", "bsr"):
    FN["scipy.sparse.%s_matrix" % _f] = (lambda f: lambda E, st, a, kw, node: csr_from(E, st, a, kw, node, f))(_f)
    FN["scipy.sparse.%s_array" % _f] = FN["scipy.sparse.%s_matrix" % _f]


@lib("scipy.sparse.eye", "scipy.sparse.identity", "scipy.sparse.eye_array")
def _speye(E, st, a, kw, node):
    r = axis_of(E, st, a[0])
    c2 = axis_of(E, st, a[1]) if len(a) > 1 and a[1].kind == "num" else r
    f = kw.get("format")
    fmt = f.const if f is not None and f.known else "dia"
    # a diagonal matrix has as many stored positions as rows
    return sp_new(E, st, node, V("sp", NOCONST, T.mk("eye", tm(E, st, a[0])), unit=ONE, dt="f", axes=(r, c2), fmt=fmt, extra={"pos": r}))


@lib("scipy.sparse.diags", "scipy.sparse.spdiags", "scipy.sparse.diags_array")
def _diags(E, st, a, kw, node):
    c = cont(E, st, a[0])
    ax = (c.axes[0], c.axes[0]) if c.axes and len(c.axes) == 1 else None
    return sp_new(E, st, node, V("sp", NOCONST, T.mk("call", "diags", tm(E, st, c)), unit=c.unit, dt=c.dt, axes=ax, fmt="dia", deps=c.deps))


@lib("scipy.sparse.issparse", "scipy.sparse.isspmatrix", "scipy.sparse.isspmatrix_csr")
def _issparse(E, st, a, kw, node):
    k = a[0].kind
    if k == "sp":
        return vbool(True)
    if k in ("arr", "num", "list", "tuple", "none", "func", "str", "linop"):
        return vbool(False)
    return V("num", NOCONST, T.mk("issparse", tm(E, st, a[0])), unit=ONE, dt="b", deps=NODEPS)


FN["scipy.sparse.isspmatrix_csr"] = lambda E, st, a, kw, node: (vbool(E.c(st, a[0]).fmt == "csr") if a[0].kind == "sp" and E.c(st, a[0]).fmt not in (None, "unknown") else (vbool(False) if a[0].kind == "arr" else V("num", NOCONST, T.mk("iscsr", tm(E, st, a[0])), unit=ONE, dt="b")))


@lib("scipy.sparse.linalg.aslinearoperator", "scipy.sparse.linalg.LinearOperator")
def _aslin(E, st, a, kw, node):
    v = a[0]
    c = cont(E, st, v)
    if v.kind == "linop":
        return v
    return V("linop", term=tm(E, st, c), unit=c.unit, axes=c.axes if c.axes is not None and len(c.axes) == 2 else None, deps=c.deps)


# ---- misc
@lib("numpy.finfo", "numpy.iinfo")
def _finfo(E, st, a, kw, node):
    return V("finfo", term=tm(E, st, a[0]))


@lib("numpy.dtype")
def _dtype(E, st, a, kw, node):
    d = dt_of(a[0])
    return V("dtype", dt=None if d == "?" else d)


@lib("numpy.isscalar")
def _isscalar(E, st, a, kw, node):
    return vbool(a[0].kind in ("num", "str")) if a[0].kind in ("num", "str", "arr", "list", "tuple", "none") else vany(a[0].deps)


@lib("numpy.ndim")
def _ndim(E, st, a, kw, node):
    return value_attr(E, st, a[0], "ndim", node)


@lib("numpy.size")
def _size(E, st, a, kw, node):
    return value_attr(E, st, a[0], "size", node)


@lib("numpy.shape")
def _shape(E, st, a, kw, node):
    return value_attr(E, st, a[0], "shape", node)


@lib("numpy.array_equal", "numpy.allclose", "numpy.isclose")
def _allclose(E, st, a, kw, node):
    ca, cb = cont(E, st, a[0]), cont(E, st, a[1])
    return V("num", NOCONST, T.mk("call", "allclose", tm(E, st, ca), tm(E, st, cb)), unit=ONE, dt="b", deps=ca.deps | cb.deps)


@lib("scipy.optimize.OptimizeResult")
def _optres(E, st, a, kw, node):
    E.emit("result", st, node, kw=kw)
    return V("rec", items=dict(kw), deps=E.deps_of(st, list(kw.values())))


@lib("numpy.random.shuffle")
def _shuffle(E, st, a, kw, node):
    E.emit("random", st, node, name="numpy.random.shuffle", args=a, kwargs=kw)
    v = a[0]
    if v.kind == "arr":
        c = E.c(st, v)
        t = E.fresh(st, node, "shuf", "a")
        ex = dict(c.extra) if isinstance(c.extra, dict) else {}
        ex["shuffled"] = True
        E.write(st, v, c.r(term=t, extra=ex), node, "numpy.random.shuffle", perm=True)
    return NONE


def rdeps(E, st, a, kw):
    return E.deps_of(st, list(a) + list(kw.values()))


@lib("numpy.random.permutation")
def _permutation(E, st, a, kw, node):
    E.emit("random", st, node, name="numpy.random.permutation", args=a, kwargs=kw)
    v = a[0]
    if v.kind == "num":
        ax = axis_of(E, st, v)
        b, k = base_axis(ax)
        return E.arr(st, node, "perm", V("arr", NOCONST, E.fresh(st, node, "perm"), unit=ONE, dt="i", deps=rdeps(E, st, a, kw), axes=(ax,), idx=b, rng=(0, INF), extra={"perm": ax, "shuffled": True}))
    c = cont(E, st, v)
    ex = dict(c.extra) if isinstance(c.extra, dict) else {}
    ex["shuffled"] = True
    return E.arr(st, node, "perm", c.r(kind="arr", term=E.fresh(st, node, "perm"), extra=ex))


@lib("numpy.random.randint", "numpy.random.random_integers")
def _randint(E, st, a, kw, node):
    E.emit("random", st, node, name="numpy.random.randint", args=a, kwargs=kw)
    lo, hi = arg(a, kw, 0, "low"), arg(a, kw, 1, "high")
    if hi is None or hi.kind == "none":
        lo, hi = vnum(0), lo
    size = arg(a, kw, 2, "size")
    b, k = base_axis(axis_of(E, st, hi))
    ex = {"draw": (lo, hi)}
    if size is None or size.kind == "none":
        return V("num", NOCONST, E.fresh(st, node, "ri"), unit=ONE, dt="i", deps=rdeps(E, st, a, kw), idx=b, rng=(0, INF), extra=ex)
    return E.arr(st, node, "ri", V("arr", NOCONST, E.fresh(st, node, "ri"), unit=ONE, dt="i", deps=rdeps(E, st, a, kw), idx=b, axes=shape_axes(E, st, size), rng=(0, INF), extra=ex))


@lib("numpy.random.choice")
def _choice(E, st, a, kw, node):
    E.emit("random", st, node, name="numpy.random.choice", args=a, kwargs=kw)
    pop = a[0]
    size = arg(a, kw, 1, "size")
    rep = arg(a, kw, 2, "replace")
    idx = None
    if pop.kind == "num":
        idx, _ = base_axis(axis_of(E, st, pop))
    elif pop.kind == "arr":
        idx = E.c(st, pop).idx
    ex = {"draw": (vnum(0), pop), "noreplace": rep is not None and rep.known and not rep.const}
    if size is None or size.kind == "none":
        return V("num", NOCONST, E.fresh(st, node, "ch"), unit=ONE, dt="i", deps=rdeps(E, st, a, kw), idx=idx, rng=(0, INF), extra=ex)
    return E.arr(st, node, "ch", V("arr", NOCONST, E.fresh(st, node, "ch"), unit=ONE, dt="i", deps=rdeps(E, st, a, kw), idx=idx, axes=shape_axes(E, st, size), rng=(0, INF), extra=ex))


@lib("numpy.random.rand", "numpy.random.randn", "numpy.random.random", "numpy.random.uniform", "numpy.random.normal", "numpy.random.random_sample", "numpy.random.standard_normal")
def _rand(E, st, a, kw, node):
    E.emit("random", st, node, name="numpy.random.rand", args=a, kwargs=kw)
    sz = arg([], kw, None, "size")
    if not a and sz is None:
        return V("num", NOCONST, E.fresh(st, node, "rn"), unit=ONE, dt="f", deps=rdeps(E, st, a, kw), rng=(0, 1))
    return E.arr(st, node, "rn", V("arr", NOCONST, E.fresh(st, node, "rn"), unit=ONE, dt="f", deps=rdeps(E, st, a, kw), axes=tuple(axis_of(E, st, x) for x in a) if all(x.kind == "num" for x in a) and a else None))


@lib("os.path.join")
def _pjoin(E, st, a, kw, node):
    d = E.deps_of(st, a)
    if all(x.known and x.kind == "str" for x in a):
        import posixpath
        return vstr(posixpath.join(*[x.const for x in a]), d)
    parts = []
    for x in a:
        t = tm(E, st, x)
        if t.op == "path":
            parts += list(t.args)
        else:
            parts.append(t)
    out = []
    for p in parts:
        if out and out[-1].op == "const" and p.op == "const" and isinstance(p.args[0], str) and isinstance(out[-1].args[0], str):
            out[-1] = T.const(out[-1].args[0] + "/" + p.args[0])
        else:
            out.append(p)
    return V("str", term=T.mk("path", *out), deps=d)


@lib("scipy.optimize._optimize.MemoizeJac")
def _memo(E, st, a, kw, node):
    f = a[0]

    def part(k):
        def h(E, st, args, kwargs, node):
            res = []
            for s, v in E.call_value(st, f, args, kwargs, node):
                its = E.items_of(s, v) if v.kind in ("tuple", "list") else None
                if its is not None and len(its) == 2:
                    res.append((s, its[k]))
                elif v.kind == "any":
                    res.append((s, V("any", deps=v.deps)))
                else:
                    E.emit("unpack_mismatch", s, node, want=2, got=len(its) if its is not None else None, v=v)
                    E.throw(s, V("any"), node)
            return res
        return h
    from .engine import UserFn
    d = V("func", fn=UserFn("MemoizeJac.derivative", part(1)))
    return V("func", fn=UserFn("MemoizeJac", part(0)), extra={"derivative": d})


@lib("scipy.optimize.approx_fprime")
def _approx(E, st, a, kw, node):
    x, f = a[0], a[1]
    eps = arg(a, kw, 2, "epsilon")
    rest = list(a[3:])
    res = []
    for s, v in E.call_value(st, f, [x] + rest, {}, node):
        cx = cont(E, s, x)
        cv = cont(E, s, v)
        t = T.mk("fdgrad", tm(E, s, cv), tm(E, s, cx), tm(E, s, eps) if eps is not None else T.const(None))
        d = cx.deps | cv.deps | (eps.deps if eps is not None else NODEPS)
        r = E.arr(s, node, "fd", V("arr", NOCONST, t, unit=E.units.div(cv.unit, cx.unit), dt="f", axes=cx.axes, deps=d))
        E.emit("fdgrad", s, node, x=x, f=v, eps=eps, args=rest, ret=r)
        res.append((s, r))
    return res


@lib("datetime.datetime.now", "time.time", "time.perf_counter", "datetime.datetime.utcnow", "time.monotonic")
def _clock(E, st, a, kw, node):
    E.emit("clock", st, node, name="clock")
    return V("any", term=E.fresh(st, node, "clk"))


@lib("numpy.random.seed", "numpy.random.set_state")
def _seed(E, st, a, kw, node):
    E.emit("random", st, node, name="numpy.random.seed", args=a, kwargs=kw)
    return NONE

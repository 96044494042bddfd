"""Abstract inputs: vectors, matrices, options and user functions for driving the engine."""
import ast
from .engine import Engine, Program, Client, UserFn, Bound
from .values import *
from .units import U, POLY, TOP, ONE
from . import terms as T
from . import lib as L

NODE = ast.parse("0").body[0]
NODE._parent = None


def param(E, st, name, axes, unit=TOP, dt="f", rng=None, idx=None, foreign=True, deps=None, kind="arr"):
    """An array the caller passes (object P:<name>)."""
    t = T.sym(name)
    T.KIND[t] = "a"
    oid = ("P:" if foreign else "Q:") + name
    v = V("arr", term=t, unit=unit, dt=dt, axes=tuple(axes) if axes is not None else None, rng=rng, idx=idx,
          deps=frozenset([name]) if deps is None else frozenset(deps))
    if unit != TOP:
        E.tunit[t] = unit
    st.heap[oid] = Cell("arr", v)
    return V("arr", objs=frozenset([oid]), deps=v.deps)


def sparam(E, st, name, axes, unit=TOP, fmt=None, dt="f", pos=None):
    """A sparse matrix the caller passes."""
    t = T.sym(name)
    T.KIND[t] = "a"
    v = V("sp", term=t, unit=unit, dt=dt, axes=tuple(axes), deps=frozenset([name]), fmt=fmt, extra={"pos": pos} if pos else None)
    if unit != TOP:
        E.tunit[t] = unit
    oid = "P:" + name
    st.heap[oid] = Cell("sp", v)
    return V("sp", objs=frozenset([oid]), deps=v.deps, fmt=fmt)


def scalar(name, unit=TOP, dt="f", rng=None, idx=None):
    t = T.sym(name)
    T.KIND.setdefault(t, "s")
    return V("num", term=t, unit=unit, dt=dt, rng=rng, idx=idx, deps=frozenset([name]))


def integer(name, rng=(1, INF), unit=ONE):
    return scalar(name, unit, "i", rng)


def size(E, axis, rng=None):
    v = L.size_val(E, axis)
    return v.r(deps=frozenset([axis])) if rng is None else v.r(deps=frozenset([axis]), rng=rng)


def starargs(name):
    """An opaque sequence of extra arguments."""
    return V("tuple", term=T.sym(name), deps=frozenset([name]))


def user(name, handler):
    return V("func", fn=UserFn(name, handler), deps=frozenset([name]))

import ast
from ..framework import Prop
from .. import runs as R, terms as T
from ..scen import *
from ..values import vnum, Cell

CALLS = 5
SITES = [ast.parse("\n" * k + "0").body[0] for k in range(1, 12)]
LISTS = ("trace_x", "trace_fx", "trace_time", "trace_step_size")


class Check(Prop):
    id = "C36"
    technique = "alias and value analysis of the recording callback over an unrolled sequence of calls"
    rule = """After five calls of the library's Trace, each with the same array holding another point and another step size, the histories
    hold one entry for the first and every freq-th call, in order: the point (or the user's objective at it) and the step size of that
    call. No stored point shares memory with the array that was passed or with another entry, the calls change neither the mapping nor the
    array, the return value is not False, and a second Trace starts empty."""

    def runs(self):
        return [R._r("Trace[f=%s,freq=%s]" % (f, n), self.build(f, n), f=f, freq=n) for f in (False, True) for n in (None, 1, 2, 3)]

    def build(self, f, n):
        def go(E):
            st = E.start("copt.utils")
            kw = {} if n is None else {"freq": vnum(n)}
            if f:
                kw["f"] = user("f", h_fun(False))
            cur = [(s, o) for s, o in E.call_value(st, E.func("copt.utils.Trace"), [], kw, SITES[0])]
            for k in range(CALLS):
                nxt = []
                for s, o in cur:
                    x = param(E, s, "x%d" % k, ("F",), X1)
                    s.heap["P:x"] = s.heap.pop("P:x%d" % k)
                    x = x.r(objs=frozenset(["P:x"]))
                    s.heap["P:locals"] = Cell("dict", items={T.const("x"): x, T.const("step_size"): scalar("s%d" % k, SU)})
                    d = V("dict", objs=frozenset(["P:locals"]))
                    for s2, r in E.call_value(s, o, [d], {}, SITES[1 + k]):
                        self.returned(E, s2, r)
                        self.intact(E, s2, k)
                        nxt.append((s2, o))
                cur = nxt
            out = []
            for s, o in cur:
                self.histories(E, s, o, f, n or 1)
                for s2, o2 in E.call_value(s, E.func("copt.utils.Trace"), [], {}, SITES[10]):
                    self.second(E, s2, o, o2)
                    out.append((s2, NONE))
            return out
        return go

    def setup(self, E, run):
        self.at = next(("copt/utils.py:%d" % m.lineno for n in E.prog.modules["copt.utils"].tree.body if isinstance(n, ast.ClassDef) and n.name == "Trace"
                        for m in n.body if isinstance(m, ast.FunctionDef) and m.name == "__call__"), "copt/utils.py")

    def bad(self, rule, msg):
        self.report_at(self.at, "Trace.__call__", rule, msg)

    def ob(self, what):
        self.obligation(what)
        self.sites.add((what, self.at, "Trace.__call__"))

    def returned(self, E, st, r):
        self.ob("a recording does not stop the solver")
        if r.kind == "num" and r.known and r.const is False:
            self.bad("stops", "the return value is False, which stops the solver")

    def intact(self, E, st, k):
        self.ob("a recording leaves the solver's state alone")
        t = st.heap["P:x"].v.term
        if t is not None and t is not T.sym("x%d" % k) and not odd(t):
            self.bad("changes", "a call changes the current point to %s" % T.show(t, 3))

    def attr(self, E, st, o, name):
        if len(o.objs) != 1:
            return None
        (ob,) = o.objs
        c = st.heap.get(ob)
        return c.attrs.get(name) if c is not None and c.attrs else None

    def entries(self, E, st, o, name):
        a = self.attr(E, st, o, name)
        if a is None or a.kind != "list" or len(a.objs) != 1:
            return None
        (ob,) = a.objs
        c = st.heap.get(ob)
        return list(c.items) if c is not None and isinstance(c.items, list) else None

    def histories(self, E, st, o, f, freq):
        want = [k for k in range(CALLS) if k % freq == 0]
        main = "trace_fx" if f else "trace_x"
        for name in (main, "trace_step_size", "trace_time"):
            it = self.entries(E, st, o, name)
            self.ob("%s has one entry per recorded call" % name)
            if it is None:
                E.note("C36: %s not resolved" % name)
                continue
            if len(it) != len(want):
                self.bad("length", "after %d calls with freq=%d, %s has %d entries instead of %d" % (CALLS, freq, name, len(it), len(want)))
                continue
            if name == "trace_time":
                continue
            seen = {}
            for j, (k, v) in enumerate(zip(want, it)):
                self.ob("entries of %s are those of their call" % name)
                if name == "trace_x":
                    if "P:x" in self.shared(st, v):
                        self.bad("alias", "an entry of trace_x shares memory with the solver's iterate and changes with it")
                        break
                    for ob in v.objs:
                        if ob in seen and seen[ob] != k:
                            self.bad("alias", "two entries of trace_x share memory")
                        seen[ob] = k
                t = E.term_of(st, v) if v.kind in ("num", "arr", "any") else None
                exp = T.sym("s%d" % k) if name == "trace_step_size" else T.mk("user", "f", T.sym("x%d" % k)) if f else T.sym("x%d" % k)
                if t is None or odd(t):
                    continue
                if not T.equal(t, exp):
                    self.bad("content", "entry %d of %s is %s instead of %s" % (j, name, T.show(t, 3), T.show(exp, 3)))
                    break

    def shared(self, st, v):
        todo, out = list(v.objs), set()
        while todo:
            o = todo.pop()
            if o in out:
                continue
            out.add(o)
            c = st.heap.get(o)
            if c is not None:
                todo += list(c.bases)
        return out

    def second(self, E, st, o, o2):
        for name in LISTS:
            a, b = self.attr(E, st, o, name), self.attr(E, st, o2, name)
            self.ob("a new Trace starts empty")
            if a is not None and b is not None and a.kind == b.kind == "list" and a.objs & b.objs:
                self.bad("shared", "%s is shared by all Trace objects" % name)
            it = self.entries(E, st, o2, name)
            if it:
                self.bad("shared", "%s of a new Trace has %d entries" % (name, len(it)))


def odd(t):
    return T.contains(t, lambda s: s.op in ("phi", "fresh", "old", "loopvar", "unk"))

import ast

from ..framework import Prop
from .. import jit, lint

BUILTIN_NO = {"locals", "globals", "vars", "eval", "exec", "open", "input", "super", "dir", "compile", "__import__", "format", "memoryview",
              "property", "staticmethod", "classmethod", "callable", "frozenset", "bytearray", "ascii", "delattr", "setattr"}
NUMPY_NO = {"errstate", "seterr", "apply_along_axis", "apply_over_axes", "vectorize", "frompyfunc", "einsum", "tensordot", "pad", "insert", "matrix",
            "ma", "savetxt", "load", "save", "loadtxt", "piecewise", "put_along_axis", "block", "lexsort", "packbits", "unpackbits", "printoptions"}
MODULES_NO = {"scipy", "sklearn", "warnings", "os", "sys", "datetime", "itertools", "functools", "logging", "collections", "inspect", "torch"}


class Check(Prop):
    id = "C29"
    technique = "lint of every function handed to the JIT: constructs without a compiled meaning, callees that are not compiled, and captured variables rebound or modified after the kernel can have been compiled"
    rule = """In every function decorated with (or passed to) njit: no construct that nopython compilation rejects or gives another meaning
    (with, class, import, set and dict comprehensions, **kwargs, handlers of specific exceptions, fastmath); every function of the package
    it calls is itself compiled; no captured object is an instance (self), and no captured variable is written by the kernel, rebound, or
    modified in place once the kernel may have been called, since compiled code keeps the value of its first call. Functions the package
    hands out for use inside kernels (partial_deriv, prox factories) are compiled."""

    def whole(self, prog):
        self.prog = prog
        for m in prog.modules.values():
            self.rel = m.path[len(prog.root) + 1:]
            self.m = m
            self.imp = lint.imports(m.tree)
            ks = jit.kernels(m.tree)
            ids = {id(f) for f, _ in ks}
            for f, o in ks:
                self.kernel(f, o, ids)
            self.handed_out(m, ids)

    def at(self, n, f):
        return "%s:%d" % (self.rel, getattr(n, "lineno", 0)), getattr(f, "name", "<lambda>")

    def bad(self, n, f, rule, msg, detail=""):
        w, fn = self.at(n, f)
        self.report_at(w, fn, rule, msg, detail)

    def ob(self, what, n, f):
        self.obligation(what)
        self.sites.add((what,) + self.at(n, f))

    # ------------------------------------------------------------ one kernel
    def kernel(self, f, o, ids):
        self.ob("kernel options keep floating-point meaning", f, f)
        if o.get("fastmath"):
            self.bad(f, f, "fastmath", "fastmath lets compiled code drop NaN, infinities and the order of operations that interpreted code respects")
        nested = [x for x in ast.walk(f) if isinstance(x, jit.FUNCS) and x is not f]
        for n in ast.walk(f):
            if any(n is d or any(n is y for y in ast.walk(d)) for d in getattr(f, "decorator_list", [])):
                continue
            self.construct(n, f)
            if isinstance(n, ast.Call):
                self.callee(n, f, ids)
        self.captured(f, ids)

    def construct(self, n, f):
        self.obligation("construct has a compiled meaning")
        what = None
        if isinstance(n, (ast.With, ast.AsyncWith)):
            if not any("objmode" in ast.dump(i.context_expr) for i in n.items):
                what = "a with statement"
        elif isinstance(n, ast.ClassDef):
            what = "a class definition"
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            what = "an import"
        elif isinstance(n, (ast.SetComp, ast.DictComp)):
            what = "a set or dict comprehension"
        elif isinstance(n, ast.ExceptHandler) and n.type is not None and not (isinstance(n.type, ast.Name) and n.type.id == "Exception" and not n.name):
            what = "a handler of a specific exception"
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            what = "a global or nonlocal statement"
        elif isinstance(n, (ast.Await, ast.AsyncFor, ast.YieldFrom)):
            what = "await / yield from"
        elif isinstance(n, ast.Call) and any(k.arg is None for k in n.keywords):
            what = "a call with **kwargs"
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in BUILTIN_NO and jit.owner(n, n.func.id) is None:
            what = "%s()" % n.func.id
        elif isinstance(n, ast.Call):
            ch = lint.dotted(n.func)
            if ch and ch[0] in self.imp and not lint.shadowed(n, ch[0]):
                q = self.imp[ch[0]].split(".") + ch[1:]
                if q[0] in MODULES_NO:
                    what = ".".join(q)
                elif q[0] == "numpy" and len(q) > 1 and q[1] in NUMPY_NO or q[0] == "numpy" and q[-1] == "at" and len(q) == 3:
                    what = ".".join(q)
        if what:
            self.bad(n, f, "construct", "%s cannot be compiled" % what, what)

    def callee(self, n, f, ids):
        if not isinstance(n.func, ast.Name):
            return
        ds = jit.scope_defs(n, n.func.id)
        if not ds:
            return
        self.ob("function called by a kernel is compiled", n, f)
        if all(isinstance(d, ast.FunctionDef) for d in ds) and not any(id(d) in ids or self.inside(d, f) for d in ds):
            self.bad(n, f, "interpreted-callee", "%s is called from compiled code but is not compiled itself" % n.func.id, n.func.id)
        if len(ds) == 1 and isinstance(ds[0], ast.ImportFrom):
            try:
                b = self.prog.resolve_import(self.m, ds[0])
                t = self.prog.modules.get(b)
                d = t.bind.get(next(a.name for a in ds[0].names if (a.asname or a.name) == n.func.id)) if t else None
            except StopIteration:
                return
            if isinstance(d, ast.FunctionDef) and id(d) not in {id(x) for x, _ in jit.kernels(t.tree)} and d.name not in ("prange",):
                self.bad(n, f, "interpreted-callee", "%s is called from compiled code but is not compiled itself" % n.func.id, n.func.id)

    def inside(self, d, f):
        return any(p is f for p in lint.parents(d))

    # ------------------------------------------------------------ captured variables
    def captured(self, f, ids):
        fr = jit.free(f)
        kw = jit.writes(f, self.prog)
        local = jit.bound(f)
        for name, node in fr.items():
            scope = jit.owner(f, name)
            if scope is None:
                continue
            self.ob("captured variable keeps its value", node, f)
            if name in kw and name not in local and not isinstance(jit.bindings(scope, name)[0], (ast.Import, ast.ImportFrom)):
                self.bad(kw[name], f, "captured-written", "the kernel modifies %r, which it captures: compiled code holds a frozen copy of it" % name, name)
            if isinstance(scope, ast.Module):
                self.module_variable(f, name, node)
                continue
            bs = jit.bindings(scope, name)
            if isinstance(scope, jit.FUNCS) and name == "self" and any(isinstance(b, ast.arguments) for b in bs):
                self.bad(node, f, "captured-instance", "the kernel captures the instance %r, which compiled code cannot hold" % name, name)
                continue
            uses = self.uses(scope, f)
            for b in bs:
                if isinstance(b, ast.arguments):
                    continue
                if any(isinstance(b, ast.FunctionDef) for b in [b]) and b is f:
                    continue
                u = self.stale(scope, f, uses, b)
                if u is not None:
                    self.bad(b, f, "captured-rebound", "%r is rebound after the kernel that captured it may have been compiled" % name, name)
                    break
            for n in self.effects(scope, name):
                u = self.stale(scope, f, uses, n)
                if u is not None:
                    self.bad(n, f, "captured-modified", "%r is modified in place after the kernel that captured it may have been compiled" % name, name)
                    break
            # nonlocal rebinding in sibling functions
            for x in ast.walk(scope):
                if isinstance(x, ast.Nonlocal) and name in x.names:
                    self.bad(x, f, "captured-rebound", "%r is declared nonlocal in another function while a kernel captures it" % name, name)

    def module_variable(self, f, name, node):
        if name in self.imp or hasattr(__import__("builtins"), name):
            return
        for x in ast.walk(self.m.tree):
            if isinstance(x, ast.Global) and name in x.names and any(
                    isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store) for y in ast.walk(x._parent)):
                self.bad(x, f, "captured-rebound", "the module variable %r is rebound by a function while a kernel reads it" % name, name)
                return
        for x in ast.walk(self.m.tree):
            if isinstance(x, jit.FUNCS) and name not in jit.bound(x) and jit.owner(x, name) is self.m.tree:
                for n in jit.own_nodes(x):
                    for nm, w in jit.node_writes(n, self.prog, 1):
                        if nm == name and x is not f:
                            self.bad(w, f, "captured-modified", "the module variable %r is modified by a function while a kernel reads it" % name, name)
                            return

    def uses(self, scope, f):
        """Reads of the kernel in its scope, each one a possible call or escape."""
        name = getattr(f, "name", None)
        if name is None or jit.scopes(f)[0] is not scope:
            return [f]
        out = [n for n in jit.own_nodes(scope) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]
        # calls from other functions nested in the scope count at the place of their definition
        for n in jit.own_nodes(scope):
            if isinstance(n, jit.FUNCS) and n is not f and name in jit.free(n):
                out += self.uses(scope, n) if getattr(n, "name", None) != name else []
        return out

    def stale(self, scope, f, uses, change):
        """A use of the kernel after which the change can happen, without the kernel being created again."""
        top = f
        for p in lint.parents(f):
            if p is scope:
                break
            top = p
        for u in uses:
            if isinstance(getattr(u, "_parent", None), ast.Return):
                continue
            if not jit.may_follow(scope, u, change):
                continue
            loops = jit.common_loops(scope, u, change)
            if loops and jit.pos(change) < jit.pos(f) and any(any(l is p for p in jit.path_to(scope, f)) for l in loops):
                continue        # changed first, then the kernel is created anew
            return u
        return None

    def effects(self, scope, name):
        for n in jit.own_nodes(scope):
            for nm, w in jit.node_writes(n, self.prog):
                if nm == name and not (isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)):
                    yield w

    # ------------------------------------------------------------ functions meant for use inside kernels
    def handed_out(self, m, ids):
        for c in ast.walk(m.tree):
            if not isinstance(c, ast.FunctionDef) or not (c.name == "partial_deriv" or c.name.endswith("_factory") and "prox" in c.name):
                continue
            for r in jit.own_nodes(c):
                if isinstance(r, ast.Return) and r.value is not None:
                    v = r.value.elts[0] if isinstance(r.value, ast.Tuple) and r.value.elts else r.value
                    if isinstance(v, ast.Name):
                        ds = jit.bindings(c, v.id)
                        self.ob("function handed out for kernels is compiled", r, c)
                        if ds and all(isinstance(d, ast.FunctionDef) for d in ds) and not any(id(d) in ids for d in ds):
                            self.bad(ds[0], c, "handed-out", "%s is meant to be called from compiled code but is not compiled" % v.id, v.id)
                    elif isinstance(v, ast.Lambda):
                        self.bad(v, c, "handed-out", "a lambda is handed out for use in compiled code", "lambda")

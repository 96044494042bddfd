import ast

from ..framework import Prop
from .. import jit, lint


class Check(Prop):
    id = "C28"
    technique = "dependence analysis of parallel loops: injectivity of store indices in the loop variable, carried scalars, reads of other iterations' elements"
    rule = """In every loop over prange of a function compiled with parallel=True: each element stored to an array that lives outside the
    iteration is indexed, in one fixed position, by the loop variable itself (plus a constant); no element of a stored array is read at
    another index; every scalar assigned in the loop is assigned before it is read in the same iteration (no accumulation across
    iterations); no function that writes into a shared array is called on it."""

    def whole(self, prog):
        self.prog = prog
        for m in prog.modules.values():
            self.rel = m.path[len(prog.root) + 1:]
            pr = {k for k, v in lint.imports(m.tree).items() if v.split(".")[-1] == "prange"} | {"prange"}
            for f, o in jit.kernels(m.tree):
                if not o.get("parallel"):
                    continue
                self.obligation("parallel kernel")
                for n in ast.walk(f):
                    if isinstance(n, ast.For) and isinstance(n.iter, ast.Call):
                        c = n.iter.func
                        if isinstance(c, ast.Name) and c.id in pr or isinstance(c, ast.Attribute) and c.attr == "prange":
                            self.loop(f, n)

    def bad(self, f, n, rule, msg, detail=""):
        self.report_at("%s:%d" % (self.rel, n.lineno), getattr(f, "name", "<lambda>"), rule, msg, detail)

    def loop(self, f, lp):
        if not isinstance(lp.target, ast.Name):
            return
        i = lp.target.id
        self.sites.add(("parallel loop", "%s:%d" % (self.rel, lp.lineno), getattr(f, "name", "")))
        nodes = [n for s in lp.body for n in ast.walk(s)]
        private = self.allocated(lp, nodes)
        exact, dep = self.derived(lp, nodes, i)
        stored = {}
        for n in nodes:
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                r = jit.root(n)
                if r is None or r in private:
                    continue
                self.obligation("stores of different iterations are disjoint")
                pos = self.position(n, i, exact)
                if pos is None:
                    if self.affine(n, i, exact):
                        continue
                    self.bad(f, n, "shared-store", "%s is stored at an index that different iterations can share" % ast.unparse(n), r)
                else:
                    stored.setdefault(r, []).append((pos, n))
            if isinstance(n, ast.Call):
                for nm, w in jit.node_writes(n, self.prog):
                    if nm not in private and nm != i:
                        self.obligation("calls in a parallel loop write nothing shared")
                        self.bad(f, n, "shared-call", "the call modifies %r, which all iterations share" % nm, nm)
        for n in nodes:
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                r = jit.root(n)
                if r in stored and not isinstance(n.value, ast.Subscript):
                    self.obligation("no element of another iteration is read")
                    pos = self.position(n, i, exact)
                    if pos is None and not self.affine(n, i, exact) or pos is not None and any(p != pos for p, _ in stored[r]):
                        self.bad(f, n, "shared-read", "%s may be the element another iteration writes" % ast.unparse(n), r)
        self.scalars(f, lp, nodes, i)

    def allocated(self, lp, nodes):
        """Names that only ever hold objects created within the iteration."""
        out, bad = set(), set()
        for n in nodes:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        v = n.value
                        fresh = isinstance(v, (ast.Call, ast.BinOp, ast.List, ast.ListComp, ast.Tuple, ast.Constant, ast.UnaryOp, ast.Compare))
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("ravel", "reshape", "asarray", "view", "squeeze", "transpose", "T"):
                            fresh = False
                        (out if fresh else bad).add(t.id)
        return out - bad

    def derived(self, lp, nodes, i):
        """Locals equal to the loop variable plus a constant: name -> (constant expression)."""
        exact = {i: ""}
        for _ in range(3):
            for n in nodes:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    t = n.targets[0].id
                    s = self.shift(n.value, exact)
                    writes = [x for x in nodes if isinstance(x, ast.Name) and x.id == t and isinstance(x.ctx, ast.Store)]
                    if s is not None and len(writes) == 1 and t != i:
                        exact[t] = s
        return exact, None

    def shift(self, e, exact):
        if isinstance(e, ast.Name) and e.id in exact:
            return exact[e.id]
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and isinstance(e.right, ast.Constant):
            s = self.shift(e.left, exact)
            return None if s is None else "%s%s%r" % (s, "+" if isinstance(e.op, ast.Add) else "-", e.right.value)
        return None

    def position(self, n, i, exact):
        """(axis, shift) of the loop variable in a subscript."""
        ix = n.slice
        parts = ix.elts if isinstance(ix, ast.Tuple) else [ix]
        b = n.value
        while isinstance(b, ast.Subscript):         # a[i][j]
            q = b.slice.elts if isinstance(b.slice, ast.Tuple) else [b.slice]
            parts = q + parts
            b = b.value
        for k, p in enumerate(parts):
            s = self.shift(p, exact)
            if s is not None:
                return (k, s)
        return None

    def affine(self, n, i, exact):
        """Some index component combines the loop variable with others by products: not judged."""
        for x in ast.walk(n.slice):
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult) and any(isinstance(y, ast.Name) and y.id in exact for y in ast.walk(x)):
                return True
            if isinstance(x, ast.Slice) and any(isinstance(y, ast.Name) and y.id in exact for y in ast.walk(x)):
                return True
        return False

    def scalars(self, f, lp, nodes, i):
        names = {n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - {i}
        for v in sorted(names):
            self.obligation("scalar is private to the iteration")
            n = first_read(lp.body, v)
            if n is not None and not isinstance(n, bool):
                self.bad(f, n, "carried", "%r carries a value from one iteration to the next" % v, v)
        for s in ast.walk(lp):
            pass


def first_read(body, v, assigned=False):
    """First read of v that may see a value from before the body; True when v is certainly assigned at the end."""
    state = [assigned]

    def expr(e, asg):
        if asg or e is None:
            return None
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load):
                return x
        return None

    def stores(t):
        return isinstance(t, ast.Name) and t.id == v or isinstance(t, (ast.Tuple, ast.List)) and any(stores(x) for x in t.elts)

    def block(b, asg):
        for s in b:
            if isinstance(s, ast.AugAssign):
                r = expr(s.value, asg)
                if r is None and isinstance(s.target, ast.Name) and s.target.id == v and not asg:
                    r = s.target
                if r is None and not isinstance(s.target, ast.Name):
                    r = expr(s.target, asg)
            elif isinstance(s, ast.Assign):
                r = expr(s.value, asg)
                for t in s.targets:
                    if r is None and not isinstance(t, ast.Name):
                        r = expr(t, asg)
                if any(stores(t) for t in s.targets):
                    asg = True
            elif isinstance(s, ast.If):
                r = expr(s.test, asg)
                if r is None:
                    r, a = block(s.body, asg)
                    if r is None:
                        r, b2 = block(s.orelse, asg)
                        asg = a and b2
            elif isinstance(s, (ast.For, ast.While)):
                r = expr(s.iter if isinstance(s, ast.For) else s.test, asg)
                if r is None:
                    r, _ = block(s.body, asg or isinstance(s, ast.For) and stores(s.target))
            else:
                r = None
                for c in ast.iter_child_nodes(s):
                    if isinstance(c, ast.expr):
                        r = r or expr(c, asg)
            if r is not None:
                return r, asg
            if isinstance(s, (ast.Continue, ast.Break, ast.Return)):
                return None, True
        return None, asg
    r, _ = block(body, assigned)
    return r

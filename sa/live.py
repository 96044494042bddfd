"""Liveness of local variables at loop heads (structured backward analysis)."""
import ast

ALL = "*"
_cache = {}


def uses(*nodes):
    r = set()
    for n in nodes:
        if n is None:
            continue
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                if isinstance(x.ctx, ast.Load):
                    r.add(x.id)
                    if x.id in ("locals", "vars", "eval", "exec"):
                        r.add(ALL)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                r.update(x.names)
    return r


def targets(t):
    """names certainly assigned, names used"""
    if isinstance(t, ast.Name):
        return {t.id}, set()
    if isinstance(t, (ast.Tuple, ast.List)):
        k, u = set(), set()
        for e in t.elts:
            a, b = targets(e)
            k |= a
            u |= b
        return k, u
    if isinstance(t, ast.Starred):
        return targets(t.value)
    return set(), uses(t)


class _L:
    def __init__(self):
        self.heads = {}

    def block(self, stmts, out, brk, cont):
        for s in reversed(stmts):
            out = self.stmt(s, out, brk, cont)
        return out

    def stmt(self, s, out, brk, cont):
        if isinstance(s, ast.Assign):
            r = set(out)
            for t in s.targets:
                k, u = targets(t)
                r = (r - k) | u
            return r | uses(s.value)
        if isinstance(s, ast.AnnAssign):
            k, u = targets(s.target)
            return (set(out) - (k if s.value is not None else set())) | u | uses(s.value)
        if isinstance(s, ast.AugAssign):
            k, u = targets(s.target)
            return set(out) | k | u | uses(s.value)
        if isinstance(s, ast.If):
            return uses(s.test) | self.block(s.body, out, brk, cont) | self.block(s.orelse, out, brk, cont)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            after = self.block(s.orelse, out, brk, cont) | set(out)
            isfor = not isinstance(s, ast.While)
            H = set(after) | (set() if isfor else uses(s.test))
            while True:
                b = self.block(s.body, H, out, H)
                if isfor:
                    k, u = targets(s.target)
                    b = (b - k) | u
                n = H | b
                if n == H:
                    break
                H = n
            self.heads[id(s)] = H
            return H | (uses(s.iter) if isfor else set())
        if isinstance(s, ast.With):
            r = self.block(s.body, out, brk, cont)
            for i in s.items:
                r = (r - targets(i.optional_vars)[0] if i.optional_vars is not None else r) | uses(i.context_expr)
            return r
        if isinstance(s, (ast.Return, ast.Raise)):
            return uses(*list(ast.iter_child_nodes(s)))
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return (set(out) - {s.name}) | uses(s)
        if isinstance(s, ast.Try) or s.__class__.__name__ in ("TryStar", "Match"):
            r = set(out) | set(brk) | set(cont) | uses(s)
            for x in ast.walk(s):
                if isinstance(x, (ast.For, ast.While)):
                    self.heads[id(x)] = {ALL}
            return r
        return set(out) | uses(s)


def heads(fn):
    r = _cache.get(id(fn))
    if r is None or r[0] is not fn:
        l = _L()
        l.block(fn.body, set(), set(), set())
        cap = set()
        for x in ast.walk(fn):
            if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                cap |= uses(x)
        r = (fn, {k: v | cap for k, v in l.heads.items()})
        _cache[id(fn)] = r
    return r[1]


def at_loop(loop):
    """Local names that are dead at the head of a loop."""
    n = loop
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        n = getattr(n, "_parent", None)
    if n is None:
        return ()
    h = heads(n).get(id(loop))
    if h is None or ALL in h:
        return ()
    d = getattr(n, "_assigned", None)
    if d is None:
        d = n._assigned = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return d - h

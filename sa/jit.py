"""Kernels compiled by the JIT: their definitions, options, captured variables and parallel loops."""
import ast

from . import lint

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
JIT = {"njit", "jit", "vectorize", "guvectorize", "stencil", "generated_jit"}
MUTATORS = {"fill", "sort", "append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "put", "partition", "resize",
            "itemset", "setfield", "byteswap", "reverse", "add", "discard", "popitem", "sum_duplicates", "eliminate_zeros", "sort_indices"}


def _jitname(e):
    e = e.func if isinstance(e, ast.Call) else e
    n = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None
    return n in ("njit", "jit")


def options(dec):
    return {k.arg: k.value.value for k in dec.keywords if k.arg and isinstance(k.value, ast.Constant)} if isinstance(dec, ast.Call) else {}


def kernels(tree):
    """(function node, options) of every function handed to the JIT."""
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if _jitname(d):
                    out.append((n, options(d)))
        if isinstance(n, ast.Call) and n.args:
            # njit(f), njit(parallel=True)(f)
            f = n.func
            if _jitname(f) and not (isinstance(f, ast.Call) and f.args) and (not isinstance(f, ast.Call) or True):
                a = n.args[0]
                o = options(f)
                o.update(options(n))
                if isinstance(a, ast.Lambda):
                    out.append((a, o))
                elif isinstance(a, ast.Name):
                    for d in scope_defs(n, a.id):
                        if isinstance(d, ast.FunctionDef) and (d, o) not in out:
                            out.append((d, o))
    seen, res = set(), []
    for f, o in out:
        if id(f) not in seen:
            seen.add(id(f))
            res.append((f, o))
    return res


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def own_nodes(fn):
    """Nodes of a function outside nested functions (the nested definitions themselves included)."""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FUNCS + (ast.ClassDef,)):
            if not isinstance(n, ast.Lambda):
                todo += n.decorator_list
            if isinstance(n, FUNCS):
                todo += n.args.defaults + [x for x in n.args.kw_defaults if x is not None]
            continue
        todo += list(ast.iter_child_nodes(n))


def bound(fn):
    """Names bound in a function's own scope."""
    out = set(params(fn)) if isinstance(fn, FUNCS) else set()
    nonl = set()
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name.split(".")[0]) for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            nonl |= set(n.names)
    return out - nonl


def scopes(node):
    """Enclosing function scopes, innermost first, then the module."""
    out = []
    for p in lint.parents(node):
        if isinstance(p, FUNCS) or isinstance(p, ast.Module):
            out.append(p)
    return out


def owner(node, name):
    for s in scopes(node):
        if name in bound(s):
            return s
    return None


def scope_defs(node, name):
    """Binding nodes of the name visible at a node."""
    s = owner(node, name)
    return bindings(s, name) if s is not None else []


def bindings(scope, name):
    out = []
    if isinstance(scope, FUNCS) and name in params(scope):
        out.append(scope.args)
    for n in own_nodes(scope):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.append(n)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
            out.append(n)
        elif isinstance(n, (ast.Import, ast.ImportFrom)) and name in {(a.asname or a.name.split(".")[0]) for a in n.names}:
            out.append(n)
    return out


def free(fn):
    """Free variables of a kernel: name -> first node that reads it."""
    out = {}
    inner = {}

    def visit(f, local):
        local = local | bound(f)
        for n in own_nodes(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in local and not _decoration(n, fn):
                out.setdefault(n.id, n)
            if isinstance(n, FUNCS):
                visit(n, local)
    visit(fn, set())
    return out


def _decoration(n, fn):
    for d in getattr(fn, "decorator_list", []):
        if any(x is n for x in ast.walk(d)):
            return True
    return False


def root(e):
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def writes(fn, prog=None, depth=3, _seen=None):
    """Names whose objects a function modifies in place: name -> node."""
    out = {}
    _seen = _seen or set()
    if id(fn) in _seen:
        return out
    _seen = _seen | {id(fn)}
    for n in own_nodes(fn):
        for nm, node in node_writes(n, prog, depth, _seen):
            out.setdefault(nm, node)
    return out


def node_writes(n, prog=None, depth=3, _seen=None):
    """In-place modifications made by one node (not by its children)."""
    if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
        r = root(n)
        if r:
            yield r, n
    if isinstance(n, ast.AugAssign):
        r = root(n.target)
        if r:
            yield r, n
    if isinstance(n, ast.Call):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in MUTATORS and isinstance(f.value, (ast.Name, ast.Subscript)):
            r = root(f.value)
            if r:
                yield r, n
        if isinstance(f, ast.Attribute) and f.attr in ("shuffle", "copyto", "put", "place", "putmask", "fill_diagonal") and n.args:
            r = root(n.args[0])
            if r:
                yield r, n
        for k in n.keywords:
            if k.arg == "out":
                r = root(k.value)
                if r:
                    yield r, n
        if isinstance(f, ast.Name) and depth:
            ds = scope_defs(n, f.id)
            if len(ds) == 1 and isinstance(ds[0], ast.FunctionDef):
                w = writes(ds[0], prog, depth - 1, _seen)
                pos = [x.arg for x in ds[0].args.posonlyargs + ds[0].args.args]
                local = bound(ds[0])
                for i, a in enumerate(n.args):
                    if isinstance(a, ast.Name) and i < len(pos) and pos[i] in w and not _rebound_before(ds[0], pos[i]):
                        yield a.id, n
                for k in n.keywords:
                    if k.arg in w and isinstance(k.value, ast.Name) and not _rebound_before(ds[0], k.arg):
                        yield k.value.id, n


def _rebound_before(fn, name):
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in own_nodes(fn) if not isinstance(getattr(n, "_parent", None), ast.AugAssign))


# ---------------------------------------------------------------- order of statements in one scope
def path_to(scope, node):
    out = []
    n = node
    while n is not scope and n is not None:
        out.append(n)
        n = getattr(n, "_parent", None)
    return out[::-1]


def common_loops(scope, a, b):
    pa, pb = path_to(scope, a), path_to(scope, b)
    return [x for x in pa if isinstance(x, (ast.For, ast.While)) and any(x is y for y in pb)]


def exclusive(scope, a, b):
    """In different branches of the same conditional."""
    pa, pb = path_to(scope, a), path_to(scope, b)
    for x, y, z in zip(pa, pa[1:], pb[1:] if len(pb) > 1 else []):
        pass
    i = 0
    while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
        i += 1
    if i == 0:
        return False
    c = pa[i - 1]
    if isinstance(c, ast.If) and i < len(pa) and i < len(pb):
        return any(pa[i] is x for x in c.body) != any(pb[i] is x for x in c.body) and pa[i] is not c.test and pb[i] is not c.test
    return False


def pos(n):
    return (getattr(n, "lineno", 0), getattr(n, "col_offset", 0))


def may_follow(scope, first, then):
    """`then` may run after `first` (both in the same scope)."""
    if common_loops(scope, first, then):
        return True
    if exclusive(scope, first, then):
        return False
    return pos(then) > pos(first)


def loops_between(scope, definition, node):
    return [l for l in common_loops(scope, definition, node)]

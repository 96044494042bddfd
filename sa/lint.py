"""Whole-program helpers on syntax trees."""
import ast
import builtins
import symtable
import warnings

CATCH = {"AttributeError", "ImportError", "ModuleNotFoundError", "NameError", "Exception", "BaseException", "TypeError", "KeyError", "UnboundLocalError"}


def parents(n):
    while True:
        n = getattr(n, "_parent", None)
        if n is None:
            return
        yield n


def _names(e):
    return {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(e) if isinstance(x, (ast.Name, ast.Attribute))} if e is not None else set()


def guarded(node):
    """Inside a try that handles missing names, or under a test of availability."""
    prev = node
    for p in parents(node):
        if isinstance(p, ast.Try) and prev in p.body:
            for h in p.handlers:
                if h.type is None or _names(h.type) & CATCH:
                    return True
        if isinstance(p, (ast.If, ast.IfExp)) and prev is not p.test:
            if _names(p.test) & {"hasattr", "getattr", "version", "__version__", "version_info", "find_spec"}:
                return True
        if isinstance(p, ast.ExceptHandler):
            t = p.type
            if t is None or _names(t) & CATCH:
                return True
        prev = p
    return False


def enclosing(node):
    for p in parents(node):
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return p.name
    return "<module>"


def undefined_globals(mod, src):
    """Names read as globals by some scope of a module but bound nowhere in it."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        top = symtable.symtable(src, mod.path, "exec")
    defined = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace() or s.is_parameter()}
    glob = set()
    star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(mod.tree))
    missing = set()

    def visit(t):
        for s in t.get_symbols():
            n = s.get_name()
            if s.is_declared_global() and s.is_assigned():
                glob.add(n)
            if s.is_referenced() and (s.is_global() or t is top):
                missing.add(n)
        for c in t.get_children():
            visit(c)
    visit(top)
    if star:
        return set()
    return {n for n in missing if n not in defined and n not in glob and not hasattr(builtins, n)
            and n not in ("__file__", "__name__", "__doc__", "__path__", "__spec__", "__loader__", "__builtins__", "__class__", "__package__")}


def dotted(e):
    """'np.linalg.norm' as a list of names, or None."""
    out = []
    while isinstance(e, ast.Attribute):
        out.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        out.append(e.id)
        return out[::-1]
    return None


def imports(tree):
    """Local name -> module path (or module.attr) for the imports anywhere in a tree, when unambiguous."""
    out = {}
    bad = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                k = a.asname or a.name.split(".")[0]
                v = a.name if a.asname else a.name.split(".")[0]
                if out.get(k, v) != v:
                    bad.add(k)
                out[k] = v
        elif isinstance(n, ast.ImportFrom) and not n.level:
            for a in n.names:
                k = a.asname or a.name
                v = (n.module or "") + "." + a.name
                if out.get(k, v) != v:
                    bad.add(k)
                out[k] = v
    return {k: v for k, v in out.items() if k not in bad}


def shadowed(node, name):
    """The name is rebound as a variable in a function around the node."""
    for p in parents(node):
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            for a in p.args.args + p.args.kwonlyargs + p.args.posonlyargs + [x for x in (p.args.vararg, p.args.kwarg) if x]:
                if a.arg == name:
                    return True
            for x in ast.walk(p):
                if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
                    return True
    return False

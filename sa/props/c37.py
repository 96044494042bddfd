import ast
from ..framework import Prop
from .. import runs as R, terms as T, lint
from ..scen import *
from .. import ops
from .c21 import verdict, SITES

MUTATORS = {"append", "extend", "update", "setdefault", "add", "insert", "pop", "popitem", "clear", "remove", "discard", "sort", "appendleft", "fill", "resize", "reverse"}
PROCESS = {"numpy.seterr", "numpy.seterrcall", "numpy.set_printoptions", "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings",
           "os.chdir", "os.putenv", "os.umask", "sys.setrecursionlimit", "locale.setlocale", "numpy.random.set_state"}
FUN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
MAKERS = {"list", "dict", "set", "defaultdict", "OrderedDict", "deque", "zeros", "empty", "ones", "array", "Counter", "bytearray"}
LIBTAKES = ("alpha", "delta", "s")


def mutable(n):
    if isinstance(n, MUTABLE):
        return True
    if isinstance(n, ast.Call):
        f = n.func
        return (f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else "") in MAKERS
    return False


def own(f):
    """Nodes of a function, nested functions left out."""
    todo = list(f.body) if isinstance(f.body, list) else [f.body]
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, FUN + (ast.ClassDef,)):
            todo += list(ast.iter_child_nodes(n))


def binds(f):
    a = f.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    glob = set()
    for n in own(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(k.asname or k.name).split(".")[0] for k in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
    return out - glob, glob


def root(n):
    """(name, path) of the object an expression such as a.b[c] belongs to"""
    path = []
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        path.append(n.attr if isinstance(n, ast.Attribute) else "[]")
        n = n.value
    return n, path[::-1]


def changed(f):
    """(node, target expression, how) of the objects a function changes in place"""
    for n in own(f):
        tg = []
        if isinstance(n, ast.Assign):
            tg = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tg = [n.target]
        elif isinstance(n, ast.Delete):
            tg = n.targets
        elif isinstance(n, ast.For):
            tg = [n.target]
        for t in tg:
            for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                if isinstance(x, (ast.Attribute, ast.Subscript)):
                    yield n, x.value, "." + x.attr if isinstance(x, ast.Attribute) else "[...]"
                elif isinstance(x, ast.Name) and isinstance(n, ast.AugAssign):
                    yield n, x, "+="
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            yield n, n.func.value, "." + n.func.attr + "()"


class Check(Prop):
    id = "C37"
    technique = "effect analysis of every function (module, class, default-argument and process state) and value numbering of operators evaluated again after other evaluations and a change of parameters"
    rule = """No function rebinds or mutates a module-level or class-level object, a mutable default argument, or a process-wide setting. The
    term returned by an operator of an object that was evaluated elsewhere and then had its parameters changed equals the term returned by
    an object that only ever had these parameters."""

    # ------------------------------------------------------------ effects
    def whole(self, prog):
        for m in prog.modules.values():
            self.rel = m.path[len(prog.root) + 1:]
            top = set()
            for n in m.tree.body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    top.add(n.name)
                for x in ast.walk(n) if not isinstance(n, (ast.FunctionDef, ast.ClassDef)) else ():
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not inside_def(x, m.tree):
                        top.add(x.id)
            imp = lint.imports(m.tree)
            classes = {n.name: n for n in ast.walk(m.tree) if isinstance(n, ast.ClassDef)}
            for f in ast.walk(m.tree):
                if isinstance(f, FUN):
                    self.function(m, f, top, imp, classes)

    def function(self, m, f, top, imp, classes):
        name = lint.enclosing(f) if isinstance(f, ast.Lambda) else qual(f)
        self.obligation("function leaves no state behind")
        self.sites.add(("function leaves no state behind", "%s:%d" % (self.rel, f.lineno), name))
        loc, glob = binds(f)
        scope = set(loc)
        p = getattr(f, "_parent", None)
        while p is not None:
            if isinstance(p, FUN):
                scope |= binds(p)[0]
            p = getattr(p, "_parent", None)
        cls = f._parent if isinstance(getattr(f, "_parent", None), ast.ClassDef) else None
        for n in own(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in glob:
                self.bad(n, name, "global", "rebinds the module variable %s" % n.id, n.id)
            if isinstance(n, ast.Call):
                q = dotted(n.func, imp, scope)
                if q in PROCESS and not managed(n, f, imp):
                    self.bad(n, name, "process", "%s changes a setting of the whole process" % q, q)
        defaults = default_of(f)
        rebound = {x.id for x in own(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for n, t, how in changed(f):
            r, path = root(t)
            if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "type" and how.startswith("."):
                self.bad(n, name, "class", "changes an attribute of the class", how)
                continue
            if not isinstance(r, ast.Name):
                continue
            if "__class__" in path:
                self.bad(n, name, "class", "changes an attribute of the class", how)
            elif r.id in defaults and r.id not in rebound and how != "+=":
                self.bad(n, name, "default", "changes the default value of the argument %s, which later calls share" % r.id, r.id)
            elif r.id in defaults and how == "+=" and sum(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == r.id for x in own(f)) == 1:
                self.bad(n, name, "default", "changes the default value of the argument %s, which later calls share" % r.id, r.id)
            elif r.id not in scope and how != "+=" and (r.id in top or imp.get(r.id, "").startswith("copt")):
                self.bad(n, name, "module", "changes the module-level object %s" % r.id, r.id)
            elif r.id == "environ" and imp.get(r.id) == "os.environ" or r.id == "os" and path[:1] == ["environ"]:
                self.bad(n, name, "process", "changes the environment of the process", "environ")
            elif cls is not None and f.args.args and r.id == f.args.args[0].arg and path[:1] and path[0] != "[]":
                self.through_class(cls, f, n, name, path, how)
            elif cls is not None and f.args.args and r.id == f.args.args[0].arg and not path and any(
                    isinstance(d, ast.Name) and d.id == "classmethod" for d in getattr(f, "decorator_list", ())):
                self.bad(n, name, "class", "changes an attribute of the class", how)
        # an argument with a mutable default kept in the object and changed there
        for n in own(f):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in defaults and n.value.id not in rebound:
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and cls is not None:
                        for g in cls.body:
                            if isinstance(g, FUN):
                                for n2, t2, how in changed(g):
                                    r2, p2 = root(t2)
                                    if p2[:1] == [t.attr] and isinstance(r2, ast.Name) and g.args.args and r2.id == g.args.args[0].arg:
                                        self.bad(n2, qual(g), "default", "changes self.%s, which is the default value shared by all objects" % t.attr, t.attr)

    def through_class(self, cls, f, n, name, path, how):
        """self.attr changed in place where attr is a mutable object of the class"""
        attr = path[0]
        shared = [b for b in cls.body if isinstance(b, ast.Assign) and mutable(b.value) and any(isinstance(t, ast.Name) and t.id == attr for t in b.targets)]
        if not shared:
            return
        for g in cls.body:
            if isinstance(g, FUN):
                for x in own(g):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == attr:
                        return
        self.bad(n, name, "class", "changes %s, which all objects of the class share" % attr, attr)

    def bad(self, n, fn, rule, msg, detail):
        self.report_at("%s:%d" % (self.rel, n.lineno), fn, rule, "%s" % msg, detail)

    # ------------------------------------------------------------ operators
    def runs(self):
        out = []
        for c in R.PENALTIES:
            for w in ("call", "prox"):
                out.append(R._r("%s.%s" % (c, w), self.build("penalty", c, w), cls=c, what=w))
        for c, ws in R.CONSTRAINTS if hasattr(R, "CONSTRAINTS") else CONS:
            for w in ws:
                if w != "lmo_pairwise":
                    out.append(R._r("%s.%s" % (c, w), self.build("constraint", c, w), cls=c, what=w))
        for c in ("LogLoss", "SquareLoss", "HuberLoss"):
            for w in ("call", "f_grad", "lipschitz", "max_lipschitz"):
                if c == "HuberLoss" and w == "max_lipschitz":
                    continue
                for ic in ((False, True) if c == "LogLoss" and w in ("call", "f_grad") else (False,)):
                    out.append(R._r("%s.%s%s" % (c, w, "[intercept]" if ic else ""), self.build("loss", c, w, ic), cls=c, what=w))
        return out

    def build(self, mod, cls, what, icpt=False):
        def make(E, st, site):
            if mod == "loss":
                u = ops.loss_units(cls, icpt)
                a = list(data(E, st, "dense", aunit=u["A"], bunit=u["b"], brng=(0, 1) if cls == "LogLoss" else None))
                a.append(scalar("alpha", u["al"], rng=(0, INF)))
                k = {"delta": scalar("delta", u["Z"], rng=(0, INF))} if cls == "HuberLoss" else {}
            elif mod == "penalty":
                a, k = ops.pen_args(E, st, cls)
            else:
                a, k = ops.con_args(E, cls), {}
            return E.call_value(st, E.func("copt.%s.%s" % (mod, cls)), a, k, site)

        def later(E, st, o):
            """what a caller may set on an existing object"""
            if len(o.objs) == 1:
                (ob,) = o.objs
                c = st.heap[ob]
                for n in LIBTAKES:
                    v = (c.attrs or {}).get(n)
                    if v is not None and v.kind == "num" and not v.known and v.term is T.sym("alpha" if n == "s" else n):
                        st.heap[ob] = c = c.copy()
                        c.attrs[n] = scalar(n + "2", v.unit, rng=(0, INF))
                if icpt:
                    st.heap[ob] = c = c.copy()
                    c.attrs["intercept"] = vbool(True)

        def use(E, st, o, tag):
            ax = (("F+1",) if icpt else ("F",)) if mod == "loss" else ops.pen_axes(cls)
            x = param(E, st, "x" + tag, ax, X1)
            if what == "call":
                return E.call_value(st, o, [x], {}, NODE)
            if what in ("lipschitz", "max_lipschitz"):
                return E.getattr(st, o, what, NODE)
            out = []
            for s, m in E.getattr(st, o, what, NODE):
                if what == "lmo":
                    out += E.call_value(s, m, [param(E, s, "u" + tag, ax, GU), x, NONE], {}, NODE)
                elif what == "f_grad":
                    out += E.call_value(s, m, [x], {}, NODE)
                else:
                    out += E.call_value(s, m, [x, scalar("step_size" + tag, SU, rng=(0, INF))], {}, NODE)
            return out

        def go(E):
            st = E.start(E.prog.modules["copt." + mod])
            out = []
            for s1, fresh in make(E, st, SITES[0]):
                later(E, s1, fresh)
                for s2, ref in use(E, s1, fresh, ""):
                    keep = self.freeze(E, s2, ref)
                    for s3, o in make(E, s2, SITES[1]):
                        for s4, _ in use(E, s3, o, "_0"):
                            later(E, s4, o)
                            for s5, v in use(E, s4, o, ""):
                                out.append((s5, V("tuple", items=())))
                                self.compare(E, s5, cls, what, keep, self.freeze(E, s5, v))
            return out
        return go

    def setup(self, E, run):
        self.m = run.meta

    def on_branch(self, E, st, node, d):
        if not d.get("forced") and not E.loops:
            st.ts["path:%d:%d" % (node.lineno, node.col_offset)] = d["pol"]

    def freeze(self, E, st, v):
        if v.kind == "tuple" and v.items is not None:
            return [t for x in v.items for t in self.freeze(E, st, x)]
        return [E.term_of(st, v) if v.kind in ("num", "arr") else None]

    def compare(self, E, st, cls, what, a, b):
        self.obligation("an operator follows the current parameters only")
        where, fn = self.place(E, cls, what)
        self.sites.add(("an operator follows the current parameters only", where, fn))
        first = [T.sym(n) for n in ("x_0", "u_0", "step_size_0")]
        if any(t.op != "is" and any(T.contains(t, lambda s, y=y: s is y) for y in first) and pol for t, pol in st.facts.items() if isinstance(t, T.Term) and t.op == "eq"):
            return
        if len(a) != len(b):
            return E.note("C37: results of different shape")
        for p, q in zip(a, b):
            if p is None or q is None:
                continue
            r = verdict(p, q)
            if r is None and any(T.contains(q, lambda s, y=y: s is y) for y in first) and not T.contains(q, lambda s: s.op in ("phi", "fresh", "old", "loopvar", "unk")):
                r = "different"
            if r is None:
                # a parameter that the object no longer has
                gone = [n for n in ("alpha", "delta") if T.contains(q, lambda s: s is T.sym(n)) and not T.contains(p, lambda s: s is T.sym(n))]
                if gone:
                    r = "different"
            if r == "different":
                self.report_at(where, fn, "history", "%s.%s returns %s after an evaluation with other parameters, %s from an object that always had them" % (
                    cls, what, T.show(q, 4)[:100], T.show(p, 4)[:100]))

    def place(self, E, cls, what):
        for mod in ("loss", "penalty", "constraint"):
            for n in E.prog.modules["copt." + mod].tree.body:
                if isinstance(n, ast.ClassDef) and n.name == cls:
                    for k in n.body:
                        if isinstance(k, ast.FunctionDef) and k.name == ("__call__" if what == "call" else what):
                            return "copt/%s.py:%d" % (mod, k.lineno), "%s.%s" % (cls, k.name)
                    return "copt/%s.py:%d" % (mod, n.lineno), cls
        return "copt", cls


CONS = (("LinfBall", ("prox",)), ("L2Ball", ("prox",)), ("L1Ball", ("call", "prox", "lmo")), ("SimplexConstraint", ("prox", "lmo")), ("TraceBall", ("call", "prox", "lmo")))


def inside_def(n, tree):
    p = getattr(n, "_parent", None)
    while p is not None:
        if isinstance(p, FUN + (ast.ClassDef,)):
            return True
        p = getattr(p, "_parent", None)
    return False


def qual(f):
    out = [f.name] if hasattr(f, "name") else []
    p = getattr(f, "_parent", None)
    while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.ClassDef)):
            out.append(p.name)
        p = getattr(p, "_parent", None)
    return ".".join(reversed(out)) or "<lambda>"


def default_of(f):
    a = f.args
    pos = a.posonlyargs + a.args
    out = {x.arg for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults) if mutable(d)}
    return out | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None and mutable(d)}


def dotted(n, imp, scope):
    path = []
    while isinstance(n, ast.Attribute):
        path.append(n.attr)
        n = n.value
    if not isinstance(n, ast.Name) or n.id not in imp:
        return None
    return ".".join([imp[n.id]] + path[::-1])


def managed(n, f, imp):
    """inside a with statement that restores the setting, or in a try whose finally clause sets it again"""
    p = getattr(n, "_parent", None)
    while p is not None and p is not f:
        if isinstance(p, ast.With):
            for it in p.items:
                c = it.context_expr
                if isinstance(c, ast.Call):
                    q = dotted(c.func, imp, ())
                    if q in ("warnings.catch_warnings", "numpy.errstate", "numpy.printoptions"):
                        return True
        p = getattr(p, "_parent", None)
    # the same setter called in a finally clause
    return any(isinstance(t, ast.Try) and any(isinstance(c, ast.Call) and ast.dump(c.func) == ast.dump(n.func) for b in t.finalbody for c in ast.walk(b)) for t in own(f))

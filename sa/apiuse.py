"""Use of the package by scripts: resolves every attribute and call that starts at `copt`, following assignments,
containers, loops, instances and subclasses defined in the script."""
import ast


def toplevel(body):
    """Statements executed when a module is imported."""
    for s in body:
        yield s
        if isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
            for f in ("body", "orelse", "finalbody"):
                yield from toplevel(getattr(s, f, []) or [])
            for h in getattr(s, "handlers", []):
                yield from toplevel(h.body)


class Api:
    """Names reachable from `import copt`, and the signatures behind them."""

    def __init__(self, prog, package="copt"):
        self.prog, self.package = prog, package
        self.loaded = set()
        self.load(package)

    def load(self, name):
        if name in self.loaded or name not in self.prog.modules:
            return
        self.loaded.add(name)
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        m = self.prog.modules[name]
        for s in toplevel(m.tree.body):
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.load(a.name)
            elif isinstance(s, ast.ImportFrom):
                b = self.prog.resolve_import(m, s)
                self.load(b)
                for a in s.names:
                    self.load("%s.%s" % (b, a.name))

    def attr(self, mod, name):
        """Type of an attribute of a module; False when it does not exist; None when unknown."""
        m = self.prog.modules.get(mod)
        if m is None:
            return None
        n = m.bind.get(name)
        if n is not None:
            if isinstance(n, ast.ClassDef):
                return ("cls", mod, name)
            if isinstance(n, ast.FunctionDef):
                return ("fn", mod, name)
            if isinstance(n, ast.ImportFrom):
                b = self.prog.resolve_import(m, n)
                for a in n.names:
                    if (a.asname or a.name) == name:
                        if "%s.%s" % (b, a.name) in self.prog.modules:
                            return ("mod", "%s.%s" % (b, a.name))
                        if b in self.prog.modules:
                            return self.attr(b, a.name)
                return None
            if isinstance(n, ast.Import):
                for a in n.names:
                    if (a.asname or a.name.split(".")[0]) == name:
                        t = a.name if a.asname else a.name.split(".")[0]
                        return ("mod", t) if t in self.prog.modules else None
            return None
        if "%s.%s" % (mod, name) in self.loaded:
            return ("mod", "%s.%s" % (mod, name))
        if name.startswith("__") and name.endswith("__"):
            return None
        if any(isinstance(s, ast.ImportFrom) and any(a.name == "*" for a in s.names) for s in ast.walk(m.tree)):
            return None
        if "__getattr__" in m.bind or _dynamic(m.tree):
            return None
        return False

    def cls(self, mod, name):
        n = self.prog.modules[mod].bind.get(name)
        return n if isinstance(n, ast.ClassDef) else None

    def mro(self, mod, node):
        """Class nodes from a class upwards; the flag tells whether a base is unknown."""
        out, open_ = [(mod, node)], False
        for b in node.bases:
            t = None
            if isinstance(b, ast.Name):
                if b.id == "object":
                    continue
                t = self.attr(mod, b.id) if mod in self.prog.modules else None
            if t and t[0] == "cls":
                o, p = self.mro(t[1], self.cls(t[1], t[2]))
                out += o
                open_ = open_ or p
            else:
                open_ = True
        return out, open_


def _dynamic(tree):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("globals", "setattr", "vars") for x in ast.walk(tree))


def member(chain, name):
    """The definition of a member in a list of class nodes: ("def", mod, node, kind) / "data" / None."""
    for mod, c in chain:
        for s in toplevel(c.body):
            if isinstance(s, ast.FunctionDef) and s.name == name:
                deco = {d.id if isinstance(d, ast.Name) else getattr(d, "attr", "?") for d in s.decorator_list}
                if deco & {"property", "setter", "cached_property"}:
                    return ("data", s)
                if "staticmethod" in deco:
                    return ("def", mod, s, "static")
                if "classmethod" in deco:
                    return ("def", mod, s, "class")
                if deco:
                    return ("data", None)
                return ("def", mod, s, "method")
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and x.id == name:
                            return ("data", None)
        for x in ast.walk(c):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name and isinstance(x.value, ast.Name):
                return ("data", None)
            if isinstance(x, ast.FunctionDef) and x.name in ("__getattr__", "__getattribute__"):
                return ("data", None)
            if isinstance(x, ast.Attribute) and x.attr == "__dict__" or isinstance(x, ast.Name) and x.id == "setattr":
                return ("data", None)
    return None


def bind(fn, npos, kws, star, skip):
    """Why a call does not match a signature, or None."""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    only = {x.arg for x in a.posonlyargs}
    nd = len(a.defaults)
    allpos = [x.arg for x in a.posonlyargs + a.args]
    required = [x for x in allpos[:len(allpos) - nd] if x in pos]
    kwo = [x.arg for x in a.kwonlyargs]
    if npos > len(pos) and not a.vararg:
        return "takes %d positional arguments but %d are given" % (len(pos), npos)
    for k in kws:
        if k in pos[:npos]:
            return "gets %r twice" % k
        if (k not in pos or k in only) and k not in kwo and not a.kwarg:
            return "has no parameter %r" % k
    if star:
        return None
    for x in required:
        if x not in pos[:npos] and x not in kws:
            return "is called without %r" % x
    for x, d in zip(kwo, a.kw_defaults):
        if d is None and x not in kws:
            return "is called without %r" % x
    return None


class Script:
    def __init__(self, api, path, tree, report, count):
        self.api, self.path, self.tree, self.report, self.count = api, path, tree, report, count
        self.glob = {}          # every type a module-level name ever has
        self.later = []

    def run(self):
        env = {}
        self.block(self.tree.body, env, True)
        while self.later:
            fn, scope = self.later.pop()
            e = {}
            loc = {x.arg for x in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs + [y for y in (fn.args.vararg, fn.args.kwarg) if y]}
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    loc.add(x.id)
            for k, v in list(scope.items()) + list(self.glob.items()):
                if k not in loc:
                    e[k] = v
            if isinstance(fn, ast.Lambda):
                self.ev(fn.body, e)
            else:
                cl = getattr(fn, "_cls", None)
                if cl is not None and fn.args.args:
                    e[fn.args.args[0].arg] = frozenset([("self", cl)])
                    e["__class__"] = frozenset([("localcls", cl)])
                self.block(fn.body, e, False)

    # ------------------------------------------------------------ statements
    def set(self, env, t, v, top):
        if isinstance(t, ast.Name):
            env[t.id] = v
            if top:
                o = self.glob.get(t.id, v)
                self.glob[t.id] = None if o is None or v is None else o | v
        elif isinstance(t, (ast.Tuple, ast.List)):
            el = [None] * len(t.elts)
            if v is not None and all(x[0] == "seq" and len(x[1]) == len(el) for x in v):
                for i in range(len(el)):
                    xs = [x[1][i] for x in v]
                    el[i] = None if None in xs else frozenset().union(*xs)
            for x, y in zip(t.elts, el):
                self.set(env, x, y, top)
        elif isinstance(t, ast.Starred):
            self.set(env, t.value, None, top)
        else:
            self.ev(t, env)

    def join(self, env, *others):
        ks = set(env).union(*others)
        for k in ks:
            vs = [o.get(k) for o in others]
            env[k] = None if None in vs else frozenset().union(*vs)

    def block(self, body, env, top):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    p = a.name.split(".")[0]
                    if p == self.api.package:
                        self.count("import")
                        if a.name not in self.api.prog.modules:
                            self.report(s, "import", "no module %s" % a.name)
                        self.api.load(a.name)
                        self.set(env, ast.Name(a.asname or p, ast.Store()), frozenset([("mod", a.name if a.asname else p)]), top)
                    else:
                        self.set(env, ast.Name(a.asname or p, ast.Store()), None, top)
            elif isinstance(s, ast.ImportFrom):
                ours = not s.level and (s.module or "").split(".")[0] == self.api.package
                if ours:
                    self.api.load(s.module)
                for a in s.names:
                    v = None
                    if ours:
                        self.count("import")
                        if s.module not in self.api.prog.modules:
                            self.report(s, "import", "no module %s" % s.module)
                        else:
                            self.api.load("%s.%s" % (s.module, a.name))
                            r = self.api.attr(s.module, a.name)
                            if r is False and a.name != "*":
                                self.report(s, "import", "%s has no name %r" % (s.module, a.name))
                            v = frozenset([r]) if r else None
                    self.set(env, ast.Name(a.asname or a.name, ast.Store()), v, top)
            elif isinstance(s, ast.Assign):
                v = self.ev(s.value, env)
                for t in s.targets:
                    self.set(env, t, v, top)
            elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
                if s.value is not None:
                    self.ev(s.value, env)
                self.set(env, s.target, None, top)
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                it = self.ev(s.iter, env)
                el = None
                if it is not None and all(x[0] == "seq" and len(x[1]) for x in it):
                    xs = [y for x in it for y in x[1]]
                    el = None if None in xs else frozenset().union(*xs)
                before = dict(env)
                self.set(env, s.target, el, top)
                self.block(s.body, env, top)
                self.join(env, before, dict(env))
                self.block(s.orelse, env, top)
            elif isinstance(s, (ast.If, ast.While)):
                self.ev(s.test, env)
                a, b = dict(env), dict(env)
                self.block(s.body, a, top)
                self.block(s.orelse, b, top)
                self.join(env, a, b)
            elif isinstance(s, ast.With):
                for i in s.items:
                    v = self.ev(i.context_expr, env)
                    if i.optional_vars is not None:
                        self.set(env, i.optional_vars, None, top)
                self.block(s.body, env, top)
            elif isinstance(s, ast.Try):
                a = dict(env)
                self.block(s.body, a, top)
                self.block(s.orelse, a, top)
                outs = [a]
                for h in s.handlers:
                    b = dict(env)
                    if h.name:
                        b[h.name] = None
                    self.block(h.body, b, top)
                    outs.append(b)
                self.join(env, *outs)
                self.block(s.finalbody, env, top)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                    self.ev(d, env)
                self.set(env, ast.Name(s.name, ast.Store()), None, top)
                self.later.append((s, {} if top else dict(env)))
            elif isinstance(s, ast.ClassDef):
                bases = [self.ev(b, env) for b in s.bases]
                s._bases = bases
                self.set(env, ast.Name(s.name, ast.Store()), frozenset([("localcls", s)]), top)
                for x in s.body:
                    if isinstance(x, ast.FunctionDef):
                        x._cls = s
                        self.later.append((x, {} if top else dict(env)))
            elif isinstance(s, (ast.Expr, ast.Return)):
                if s.value is not None:
                    self.ev(s.value, env)
            else:
                for c in ast.iter_child_nodes(s):
                    if isinstance(c, ast.expr):
                        self.ev(c, env)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value, env)
            if b is None:
                return None
            rs = [self.attr(t, e) for t in b]
            if all(r is False for r in rs):
                self.report(e, "attribute", "%s has no attribute %r" % (self.name(next(iter(b))), e.attr))
                return None
            return None if None in rs or False in rs else frozenset(rs)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, (ast.Tuple, ast.List)):
            return frozenset([("seq", tuple(self.ev(x, env) for x in e.elts))])
        if isinstance(e, ast.Dict):
            ks = [k.value if isinstance(k, ast.Constant) else None for k in e.keys]
            vs = [self.ev(v, env) for v in e.values]
            return frozenset([("dict", tuple(zip(ks, vs)))]) if None not in ks else None
        if isinstance(e, ast.Subscript):
            b, i = self.ev(e.value, env), e.slice
            self.ev(i, env)
            if b is not None and isinstance(i, ast.Constant):
                xs = []
                for t in b:
                    if t[0] == "dict":
                        xs.append(dict(t[1]).get(i.value))
                    elif t[0] == "seq" and isinstance(i.value, int) and -len(t[1]) <= i.value < len(t[1]):
                        xs.append(t[1][i.value])
                    else:
                        return None
                return None if None in xs else frozenset().union(*xs)
            return None
        if isinstance(e, ast.Lambda):
            self.later.append((e, dict(env)))
            return None
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e2 = dict(env)
            for g in e.generators:
                it = self.ev(g.iter, e2)
                el = None
                if it is not None and all(x[0] == "seq" and len(x[1]) for x in it):
                    xs = [y for x in it for y in x[1]]
                    el = None if None in xs else frozenset().union(*xs)
                self.set(e2, g.target, el, False)
                for c in g.ifs:
                    self.ev(c, e2)
            for f in ("elt", "key", "value"):
                if hasattr(e, f):
                    self.ev(getattr(e, f), e2)
            return None
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            a, b = self.ev(e.body, env), self.ev(e.orelse, env)
            return None if a is None or b is None else a | b
        if isinstance(e, ast.Constant):
            return frozenset([("const", repr(e.value))])
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return None

    def name(self, t):
        return {"mod": lambda: t[1], "cls": lambda: "%s.%s" % t[1:3], "fn": lambda: "%s.%s" % t[1:3], "inst": lambda: "an instance of %s" % t[2],
                "self": lambda: "an instance of %s" % t[1].name, "localinst": lambda: "an instance of %s" % t[1].name,
                "localcls": lambda: t[1].name}.get(t[0], lambda: t[0])()

    def chain(self, t):
        """Class nodes an instance type resolves members in, or None when a base is unknown."""
        if t[0] == "inst":
            ch, op = self.api.mro(t[1], self.api.cls(t[1], t[2]))
            return None if op else ch
        c = t[1]
        out = [(None, c)]
        for b in getattr(c, "_bases", [None]):
            if b is None or len(b) != 1:
                return None
            b = next(iter(b))
            if b[0] == "cls":
                ch, op = self.api.mro(b[1], self.api.cls(b[1], b[2]))
                if op:
                    return None
                out += ch
            elif b[0] == "localcls":
                ch = self.chain(("localinst", b[1]))
                if ch is None:
                    return None
                out += ch
            else:
                return None
        return out

    def attr(self, t, e):
        n = e.attr
        if t[0] == "mod":
            self.count("attribute")
            return self.api.attr(t[1], n)
        if t[0] in ("inst", "self", "localinst", "super"):
            ch = self.chain(t)
            if ch is None or n.startswith("__") and t[0] != "super":
                return None
            if t[0] == "super":
                ch = ch[1:]
            self.count("attribute")
            if isinstance(e.ctx, ast.Store):
                return None
            m = member(ch, n)
            if m is None:
                return None if n.startswith("__") else False
            return ("meth",) + m[1:] + (n,) if m[0] == "def" else None
        if t[0] == "cls":
            ch, op = self.api.mro(t[1], self.api.cls(t[1], t[2]))
            if op or n.startswith("__"):
                return None
            self.count("attribute")
            return False if member(ch, n) is None else None
        return None

    def call(self, e, env):
        f = self.ev(e.func, env)
        for a in e.args:
            self.ev(a.value if isinstance(a, ast.Starred) else a, env)
        for k in e.keywords:
            self.ev(k.value, env)
        if isinstance(e.func, ast.Name) and f is None:
            if e.func.id == "super" and "__class__" in env:
                return frozenset([("super", next(iter(env["__class__"]))[1])])
            if e.func.id in ("enumerate", "zip") and e.args and e.func.id not in env:
                xs = [self.ev(a, env) for a in e.args[:1 if e.func.id == "enumerate" else None]]
                if all(x is not None and len(x) == 1 and next(iter(x))[0] == "seq" for x in xs):
                    xs = [next(iter(x))[1] for x in xs]
                    rows = [("seq", ((frozenset([("const", "i")]),) if e.func.id == "enumerate" else ()) + r) for r in zip(*xs)]
                    return frozenset([("seq", tuple(frozenset([r]) for r in rows))])
            return None
        if f is None:
            d = e.func
            if (isinstance(d, ast.Name) and d.id == "partial" or isinstance(d, ast.Attribute) and d.attr == "partial") and e.args:
                g = self.ev(e.args[0], env)
                if g is not None:
                    self.check(e, g, len(e.args) - 1, [k.arg for k in e.keywords if k.arg], True)
            return None
        star = any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords)
        npos = sum(not isinstance(a, ast.Starred) for a in e.args)
        return self.check(e, f, npos, [k.arg for k in e.keywords if k.arg], star)

    def check(self, e, f, npos, kws, star):
        bad, out = [], []
        for t in f:
            sig, skip, res, nm = None, 0, None, self.name(t)
            if t[0] == "fn":
                sig = self.api.prog.modules[t[1]].bind[t[2]]
                if sig.decorator_list and not all(_plain(d) for d in sig.decorator_list):
                    sig = None
            elif t[0] in ("cls", "localcls"):
                res = ("inst", t[1], t[2]) if t[0] == "cls" else ("localinst", t[1])
                ch = self.chain(res)
                if ch is not None:
                    m = member(ch, "__init__")
                    if m is None:
                        if npos or kws:
                            bad.append("%s takes no arguments" % nm)
                        self.count("call")
                    elif m[0] == "def":
                        sig, skip = m[2], 1
            elif t[0] == "meth":
                sig, skip, nm = t[2], 0 if t[3] == "static" else 1, t[4]
            elif t[0] in ("inst", "localinst"):
                ch = self.chain(t)
                m = member(ch, "__call__") if ch is not None else None
                if ch is not None and m is None:
                    bad.append("%s is not callable" % nm)
                elif m is not None and m[0] == "def":
                    sig, skip = m[2], 1
            elif t[0] == "mod":
                bad.append("module %s is not callable" % nm)
            out.append(res)
            if sig is not None:
                self.count("call")
                w = bind(sig, npos, kws, star, skip)
                if w:
                    bad.append("%s %s" % (nm, w))
        if bad and len(bad) == len(f):
            self.report(e, "call", bad[0])
        return None if None in out or not out else frozenset(out)


def _plain(d):
    """Decorators that keep the signature."""
    d = d.func if isinstance(d, ast.Call) else d
    n = d.id if isinstance(d, ast.Name) else getattr(d, "attr", "")
    return n in ("njit", "jit", "wraps")

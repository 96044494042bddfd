import ast

from ..framework import Prop

INF = float("inf")
CONSUME = {"read", "readline", "readinto", "recv", "pop", "popleft", "popitem", "get", "remove", "discard", "next", "__next__", "getmember", "next_member"}
ENDLESS = {"count", "cycle", "repeat"}
FLIP = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def own(node):
    """nodes below, without the bodies of nested functions"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def atoms(test, pol=True):
    """Comparisons that hold when the test has this outcome, as (left, op, right)."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return atoms(test.operand, not pol)
    if isinstance(test, ast.BoolOp):
        if isinstance(test.op, ast.And) == pol:
            return [a for v in test.values for a in atoms(v, pol)]
        return []
    if isinstance(test, ast.Compare):
        if len(test.ops) == 1:
            op = type(test.ops[0])
            if not pol:
                op = FLIP.get(op)
            return [(test.left, op, test.comparators[0])] if op in FLIP else []
        if pol:
            out, l = [], test.left
            for o, r in zip(test.ops, test.comparators):
                if type(o) in FLIP:
                    out.append((l, type(o), r))
                l = r
            return out
    return []


class Path:
    def __init__(self, delta=None, guards=(), flags=None):
        self.delta = dict(delta or {})      # variable -> interval of its change
        self.guards = tuple(guards)
        self.flags = dict(flags or {})      # variable -> test it was assigned, or a constant

    def copy(self):
        return Path(self.delta, self.guards, self.flags)

    def key(self):
        return (tuple(sorted(self.delta.items())), tuple(id(g[0]) for g in self.guards), tuple(sorted((k, id(v) if isinstance(v, ast.AST) else v) for k, v in self.flags.items())))


class Loop:
    """One loop that is not bounded by an iterator."""

    def __init__(self, node, first=None):
        self.node = node
        self.assigned = set()
        self.stored = set()
        self.counters = set()
        for n in own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.assigned.add(n.id)
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    self.stored.add(b.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in (
                    "append", "extend", "insert", "pop", "popleft", "remove", "clear", "update", "add", "sort", "fill"):
                self.stored.add(n.func.value.id)
            t = None
            if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)) and isinstance(n.target, ast.Name):
                self.counters.add(n.target.id)
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.BinOp):
                if n.targets[0].id in names(n.value):
                    self.counters.add(n.targets[0].id)
        self.first = first or {}
        self.counters |= set(self.first)
        self.overflow = False

    # ------------------------------------------------------------ changes
    def amount(self, e):
        """interval of the value of an increment"""
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
            return (e.value, e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            a = self.amount(e.operand)
            return (-a[1], -a[0]) if a else None
        if isinstance(e, ast.Name) and e.id not in self.assigned:
            return (1, INF)         # a size given from outside
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len":
            return (0, INF)
        return None

    def change(self, p, name, iv):
        if iv is None:
            p.delta[name] = (-INF, INF)
        else:
            o = p.delta.get(name, (0, 0))
            p.delta[name] = (o[0] + iv[0], o[1] + iv[1])

    def linear(self, e):
        """({variable: coefficient}, changed otherwise?)"""
        if isinstance(e, ast.Constant):
            return {}, False
        if isinstance(e, ast.Name):
            return {e.id: 1}, False
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            c, u = self.linear(e.operand)
            return {k: -v for k, v in c.items()}, u
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            c, u = self.linear(e.left)
            d, w = self.linear(e.right)
            s = 1 if isinstance(e.op, ast.Add) else -1
            c = dict(c)
            for k, v in d.items():
                c[k] = c.get(k, 0) + s * v
            return c, u or w
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            for a, b in ((e.left, e.right), (e.right, e.left)):
                if isinstance(a, ast.Constant) and isinstance(a.value, (int, float)):
                    c, u = self.linear(b)
                    return {k: v * a.value for k, v in c.items()}, u
        return {}, bool(names(e) & (self.assigned | self.stored))

    def measure(self, atom, p):
        """upper bound of the change of the quantity that the comparison keeps from below; None when not bounded"""
        l, op, r = atom
        if op in (ast.Gt, ast.GtE):
            l, r = r, l
        elif op in (ast.Eq,):
            return None
        # l < r  keeps  r - l  positive;  l != r does so too when steps are single
        (cl, ul), (cr, ur) = self.linear(l), self.linear(r)
        if ul or ur:
            return None
        c = dict(cr)
        for k, v in cl.items():
            c[k] = c.get(k, 0) - v
        lo = hi = 0
        for k, v in c.items():
            d = p.delta.get(k, (0, 0)) if k in self.assigned or k in self.first else (0, 0)
            if v == 0 or d == (0, 0):
                continue
            lo += min(v * d[0], v * d[1])
            hi += max(v * d[0], v * d[1])
        if op is ast.NotEq:
            return -1 if (lo, hi) in ((-1, -1), (1, 1)) else None
        return hi if hi == hi else None

    # ------------------------------------------------------------ paths
    def body(self, stmts, ps):
        """(paths that fall through, paths that reach the next iteration)"""
        nxt = []
        for s in stmts:
            out = []
            for p in ps:
                o, n = self.stmt(s, p)
                out += o
                nxt += n
            ps = self.unique(out)
        return ps, nxt

    def unique(self, ps):
        seen, r = set(), []
        for p in ps:
            k = p.key()
            if k not in seen:
                seen.add(k)
                r.append(p)
        if len(r) > 400:
            self.overflow = True
            r = r[:400]
        return r

    def guard(self, p, test, pol):
        q = p.copy()
        for a in atoms(test, pol):
            if names(a[0]) | names(a[2]):
                if (names(a[0]) | names(a[2])) & (self.counters | set(self.flagvars)):
                    q.guards += ((test, a),)
        # a flag that is tested
        t, w = test, pol
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, w = t.operand, not w
        if isinstance(t, ast.Name) and t.id in q.flags:
            f = q.flags[t.id]
            if isinstance(f, bool):
                return q if f == w else None
            for a in atoms(f, w):
                q.guards += ((f, a),)
        return q

    def stmt(self, s, p):
        if isinstance(s, ast.If):
            outs, nxt = [], []
            for pol, blk in ((True, s.body), (False, s.orelse)):
                if isinstance(s.test, ast.Constant) and bool(s.test.value) != pol:
                    continue
                q = self.guard(p, s.test, pol)
                if q is None:
                    continue
                o, n = self.body(blk, [q])
                outs += o
                nxt += n
            return outs, nxt
        if isinstance(s, ast.Continue):
            return [], [p]
        if isinstance(s, (ast.Break, ast.Return, ast.Raise)):
            return [], []
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.body(s.body, [p])
        if isinstance(s, ast.Try):
            o, n = self.body(s.body, [p])
            for h in s.handlers:
                ho, hn = self.body(h.body, [p.copy()])
                o, n = o + ho, n + hn
            if s.orelse:
                o2, n2 = self.body(s.orelse, o)
                o, n = o2 + [x for x in o if x not in o2 and s.handlers], n + n2
            if s.finalbody:
                o, n3 = self.body(s.finalbody, o)
                n = n + n3
            return o, n
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            q = p.copy()
            for n in own(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    q.flags.pop(n.id, None)
                    par = n._parent
                    iv = None
                    if isinstance(par, ast.AugAssign) and isinstance(par.op, (ast.Add, ast.Sub)):
                        a = self.amount(par.value)
                        if a:
                            a = a if isinstance(par.op, ast.Add) else (-a[1], -a[0])
                            iv = (min(0, a[0]) * INF if a[0] < 0 else 0, INF if a[1] > 0 else 0)
                    self.change(q, n.id, iv)
            return [q], []
        q = p
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            q = p.copy()
            a = self.amount(s.value) if isinstance(s.op, (ast.Add, ast.Sub)) else None
            if a and isinstance(s.op, ast.Sub):
                a = (-a[1], -a[0])
            self.change(q, s.target.id, a)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            q = p.copy()
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                for n in ast.walk(t):
                    if not (isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)):
                        continue
                    a = None
                    v = s.value
                    q.flags.pop(n.id, None)
                    if n is t:
                        if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub)):
                            if isinstance(v.left, ast.Name) and v.left.id == n.id:
                                a = self.amount(v.right)
                                if a and isinstance(v.op, ast.Sub):
                                    a = (-a[1], -a[0])
                            elif isinstance(v.right, ast.Name) and v.right.id == n.id and isinstance(v.op, ast.Add):
                                a = self.amount(v.left)
                        if isinstance(v, ast.Constant) and isinstance(v.value, bool):
                            q.flags[n.id] = v.value
                        elif isinstance(v, (ast.Compare, ast.BoolOp)) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
                            q.flags[n.id] = v
                    self.change(q, n.id, a)
        return [q], []

    def decide(self):
        """None when the loop ends; otherwise why not"""
        n = self.node
        self.flagvars = set()
        test = n.test if isinstance(n, ast.While) else ast.Constant(value=True)
        p = Path({k: v for k, v in self.first.items()})
        start = self.guard(p, test, True)
        out, nxt = self.body(n.body, [start])
        its = []
        for q in self.unique(out + nxt):
            # the test is taken again
            r = self.guard(q, test, True) if isinstance(n, ast.While) and not atoms(test) else q
            if r is not None:
                its.append(r)
        if not its or self.overflow:
            return None
        if self.consumes(test):
            return None
        best = None
        for q in its:
            ranks = set()
            for t, a in q.guards:
                m = self.measure(a, q)
                if m is not None and m < 0:
                    ranks.add(ast.dump(a[0]) + a[1].__name__ + ast.dump(a[2]))
            if not ranks:
                return "no counter is kept below a bound on every path of an iteration"
            best = ranks if best is None else best & ranks
        return None if best or len(its) > 1 else "no counter"

    def consumes(self, test):
        """an exit depends on something that is used up"""
        used = set()
        for n in own(self.node):
            if isinstance(n, ast.Call):
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
                if nm in CONSUME:
                    if isinstance(f, ast.Attribute):
                        used |= names(f.value)
                    for par in self.up(n):
                        if isinstance(par, (ast.Assign, ast.NamedExpr)):
                            for t in par.targets if isinstance(par, ast.Assign) else [par.target]:
                                used |= names(t)
        tests = [test] + [n.test for n in own(self.node) if isinstance(n, ast.If) and any(
            isinstance(x, (ast.Break, ast.Return, ast.Raise)) for x in own(n))]
        if any(names(t) & used for t in tests):
            return True
        for t in tests:
            for c in ast.walk(t):
                if isinstance(c, ast.Call):
                    # a container that grows, or a function that is given a counter
                    if isinstance(c.func, ast.Name) and c.func.id == "len" and names(c) & self.stored:
                        return True
                    if isinstance(c.func, ast.Name) and c.func.id not in ("len", "abs", "min", "max", "float", "int", "round", "sum", "hasattr", "isinstance") \
                            and any(names(a) & self.counters for a in c.args):
                        return True
        return False

    def up(self, n):
        while n is not self.node:
            yield n
            n = n._parent


class Check(Prop):
    id = "C06"
    technique = "ranking-function search over the syntax tree: an integer counter bounded by a guard on every iterating path; call-graph cycles"
    rule = """Every loop of the package either runs over a finite iterator that its body does not extend, or has a linear integer measure that a guard
    keeps bounded and that strictly decreases on every path from one iteration to the next (counters, flags set from comparisons and early
    exits are followed), or uses up a file or container. No function calls itself again with the same arguments."""

    def whole(self, prog):
        for name, m in sorted(prog.modules.items()):
            if ".tests" in name or name.endswith(("conftest",)):
                continue
            gens = set()
            for f in ast.walk(m.tree):
                if isinstance(f, ast.FunctionDef) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(f)):
                    gens.add(f)
            rel = name.replace(".", "/") + ".py"
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.While, ast.For)):
                    f = n
                    while not isinstance(f, (ast.FunctionDef, ast.Module)):
                        f = f._parent
                    if f in gens:
                        continue
                    self.loop(rel, f.name if isinstance(f, ast.FunctionDef) else "<module>", n)
            if name != "copt.datasets":
                self.recursion(rel, m)

    def loop(self, rel, fn, n):
        where = "%s:%d" % (rel, n.lineno)
        if isinstance(n, ast.For):
            it = n.iter
            self.obligation("for loop over something finite")
            first = None
            if isinstance(it, ast.Call):
                nm = it.func.attr if isinstance(it.func, ast.Attribute) else it.func.id if isinstance(it.func, ast.Name) else ""
                full = ast.unparse(it.func)
                if nm in ENDLESS and full in ("itertools." + nm, nm) and not (nm == "repeat" and len(it.args) > 1):
                    first = {n.target.id: (1, 1)} if nm == "count" and isinstance(n.target, ast.Name) else {}
                elif nm == "iter" and len(it.args) == 2:
                    first = {}
            if first is not None:
                why = Loop(n, first).decide() if first is not None else None
                if why:
                    self.report_at(where, fn, "unbounded", "the loop over %s may never end: %s" % (ast.unparse(it), why), "loop")
            elif isinstance(it, ast.Name):
                for c in own(n):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "extend", "insert", "add") \
                            and isinstance(c.func.value, ast.Name) and c.func.value.id == it.id:
                        leaves = any(isinstance(x, (ast.Break, ast.Return)) for x in own(n))
                        if not leaves:
                            self.report_at(where, fn, "unbounded", "the loop runs over %s, which its body extends" % it.id, "loop")
            return
        self.obligation("while loop has a measure that decreases on every path")
        why = Loop(n).decide()
        if why:
            self.report_at(where, fn, "unbounded", "the loop `while %s` may never end: %s" % (ast.unparse(n.test), why), "loop")

    def recursion(self, rel, m):
        for f in ast.walk(m.tree):
            if not isinstance(f, ast.FunctionDef):
                continue
            cls = f._parent if isinstance(f._parent, ast.ClassDef) else None
            self.obligation("no retry by recursion with the same arguments")
            params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
            changed = {n.id for n in own(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for c in own(f):
                if not isinstance(c, ast.Call):
                    continue
                g = c.func
                if cls is None and isinstance(g, ast.Name) and g.id == f.name and f.name not in changed and f.name not in params or \
                        cls is not None and isinstance(g, ast.Attribute) and g.attr == f.name and isinstance(g.value, ast.Name) and g.value.id == "self" and f.args.args and f.args.args[0].arg == "self":
                    pos = [a.arg for a in f.args.posonlyargs + f.args.args][1 if cls is not None else 0:]
                    vals = list(zip(pos, c.args)) + [(k.arg, k.value) for k in c.keywords]
                    if all(isinstance(v, ast.Name) and v.id == q for q, v in vals):
                        self.report_at("%s:%d" % (rel, c.lineno), f.name, "recursion", "%s calls itself again with the same arguments" % f.name, "recursion")

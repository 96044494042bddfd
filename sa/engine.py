"""Abstract interpreter over the syntax trees of the repository (interprocedural by inlining)."""
import ast
import os

from . import terms as T
from .live import at_loop as dead_at
from .units import Units, POLY, TOP, ONE
from .values import (V, Cell, State, UNBOUND, NONE, NOCONST, NODEPS, NOOBJ, INF, vbool, vstr, vany, vnum, num_unit)


class AnalysisError(Exception):
    pass


class Budget(Exception):
    pass


# --------------------------------------------------------------------------- program
class RepoFunc:
    def __init__(self, node, module, closure, name, defaults=(), kwdefaults=None, cls=None):
        self.node, self.module, self.closure, self.name = node, module, closure, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults or {}, cls
        self.decorators = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]

    def __repr__(self):
        return "RepoFunc(%s.%s)" % (self.module.name, self.name)


class RepoClass:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.members = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef,)):
                self.members[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.members[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.members[s.target.id] = s.value

    def __repr__(self):
        return "RepoClass(%s.%s)" % (self.module.name, self.name)


class Bound:
    """A method bound to a receiver."""

    def __init__(self, fn, self_v):
        self.fn, self.self_v = fn, self_v


class LibMeth:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Partial:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class UserFn:
    """A callable supplied by the caller; `handler(engine, state, args, kwargs, node)` returns [(state, value)]."""

    def __init__(self, name, handler):
        self.name, self.handler = name, handler

    def __repr__(self):
        return "UserFn(%s)" % self.name


MISSING_MODULES = {"tensorflow"}


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.bind = {}
        self._scan(tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.bind[s.name] = s
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.bind[(a.asname or a.name).split(".")[0]] = s
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.bind[a.asname or a.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.bind[n.id] = s
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name):
                    self.bind[s.target.id] = s
            elif isinstance(s, ast.Try):
                missing = any(isinstance(n, (ast.Import, ast.ImportFrom)) and
                              ((getattr(n, "module", None) or n.names[0].name).split(".")[0] in MISSING_MODULES)
                              for n in s.body)
                if missing:
                    for h in s.handlers:
                        self._scan(h.body)
                else:
                    for h in s.handlers:
                        self._scan(h.body)
                    self._scan(s.body)
                    self._scan(s.orelse)
                self._scan(s.finalbody)
            elif isinstance(s, ast.If):
                self._scan(s.orelse)
                self._scan(s.body)
            elif isinstance(s, (ast.With, ast.For, ast.While)):
                self._scan(s.body)


class Program:
    def __init__(self, root="/repo", package="copt"):
        self.root = root
        self.modules = {}
        pkg = os.path.join(root, package)
        if not os.path.isdir(pkg):
            raise AnalysisError("package %s not found" % pkg)
        for dp, dn, fn in os.walk(pkg):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(src, p)
                for parent in ast.walk(tree):
                    for c in ast.iter_child_nodes(parent):
                        c._parent = parent
                self.modules[rel] = Module(rel, p, tree)

    def find(self, qual):
        """'copt.loss.LogLoss.f_grad' -> (module, class node or None, node)."""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            n = m.bind.get(rest[0])
            if n is None:
                # re-exported name
                raise AnalysisError("anchor %s not found" % qual)
            if isinstance(n, ast.ImportFrom):
                tgt = self.resolve_import(m, n)
                return self.find(tgt + "." + ".".join(rest))
            if len(rest) == 1:
                return m, None, n
            if isinstance(n, ast.ClassDef):
                return m, n, rest[1]
        raise AnalysisError("anchor %s not found" % qual)

    def resolve_import(self, m, node):
        if node.level:
            base = m.name.split(".")
            is_pkg = m.path.endswith("__init__.py")
            up = node.level - (1 if is_pkg else 0)
            base = base[: len(base) - up] if up else base
            return ".".join(base + ([node.module] if node.module else []))
        return node.module


def local_names(fnode):
    """Names assigned in a function body (its locals), excluding nested scopes."""
    names, glob = set(), set()

    def tgt(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus targets leak, everything else does not
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(fnode, ast.Lambda):
        return set()
    for s in fnode.body:
        visit(s)
    return names - glob


class Out:
    __slots__ = ("nxt", "brk", "cont", "ret", "exc")

    def __init__(self):
        self.nxt, self.brk, self.cont, self.ret, self.exc = [], [], [], [], []

    def copy(self):
        o = Out()
        o.nxt, o.brk, o.cont = [[x.copy() for x in l] for l in (self.nxt, self.brk, self.cont)]
        o.ret, o.exc = [[(x.copy(), v) for x, v in l] for l in (self.ret, self.exc)]
        return o

    def absorb(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        self.exc += o.exc


class Client:
    """Base of property clients; override on_<event>."""

    def on(self, E, name, st, node, d):
        h = getattr(self, "on_" + name, None)
        if h is not None:
            h(E, st, node, d)


class Engine:
    MAX_STATES = 24
    MAX_ROUNDS = 14
    MAX_STEPS = 400000

    def __init__(self, prog, client=None):
        from . import lib
        self.lib = lib
        self.prog = prog
        self.client = client or Client()
        self.units = Units()
        self.recording = True
        self.parents = {}      # fid -> closure fid
        self.fmods = {}        # fid -> module
        self.fnode = {}        # fid -> function node
        self.loops = []        # active loop ids
        self.excs = []         # stack of exception collectors
        self.fcache = {}
        self.ccache = {}
        self.tkind = T.KIND    # term -> 'a' | 's'
        self.tunit = {}
        self.spaces = {}       # union-find of index spaces
        self.sub = {}          # index space -> containing spaces
        self.steps = 0
        self.undecided = {}
        self.fns_seen = {}
        self.callstack = []
        self.dim_count = False
        self.rowspaces = set()   # index spaces declared to be the rows of a sparse matrix
        self.positions = set()   # index spaces declared to be the stored positions of a sparse matrix
        self.loop_cache = {}
        self.extra_models = {}
        self._keepf = {}
        self.lib_hooks = {}
        self.method_hooks = []
        self.elem_hook = None
        self.maskids = {}
        self.nonempty = set()
        self.debug = bool(os.environ.get('SA_DEBUG'))

    # ------------------------------------------------------------------ helpers
    def emit(self, event_, st, node, **d):
        self.client.on(self, event_, st, node, d)

    def note(self, what, node=None):
        if self.recording:
            k = what + (" at line %s" % getattr(node, "lineno", "?") if node is not None else "")
            self.undecided[k] = self.undecided.get(k, 0) + 1

    def where(self, node, st=None):
        n = node
        fn = None
        while n is not None:
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and fn is None:
                fn = getattr(n, "name", "<lambda>")
            if isinstance(n, ast.Module):
                break
            n = getattr(n, "_parent", None)
        path = "?"
        if n is not None:
            for m in self.prog.modules.values():
                if m.tree is n:
                    path = os.path.relpath(m.path, self.prog.root)
        return "%s:%s" % (path, getattr(node, "lineno", "?")), fn or "<module>"

    def site(self, st, node, tag=""):
        fid = st.stack[-1] if st.stack else "top"
        return "%s:%s.%s%s" % (fid, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), ("." + tag) if tag else "")

    def fresh(self, st, node, tag="", kind=None):
        t = T.mk("fresh", self.site(st, node, tag), loops=tuple(self.loops))
        if kind:
            self.tkind[t] = kind
        return t

    def unk(self, st, node, tag=""):
        return T.mk("fresh", "unk@" + self.site(st, node, tag), loops=tuple(self.loops))

    def term_of(self, st, v):
        if v.kind == "tuple" and v.items is not None:
            return T.mk("tuple", *[self.term_of(st, i) for i in v.items])
        c = self.c(st, v)
        if c.term is not None:
            return c.term
        if v.kind in ("list",) and v.objs:
            for o in v.objs:
                cell = st.heap.get(o)
                if cell is not None and cell.items is not None:
                    return T.mk("tuple", *[self.term_of(st, i) for i in cell.items])
        if v.kind == "func":
            return T.mk("fn", repr(v.fn) if not isinstance(v.fn, (tuple, str)) else str(v.fn))
        if v.kind in ("inst",):
            return T.mk("inst", ",".join(sorted(v.objs)))
        return T.mk("fresh", "unk@" + v.kind, loops=tuple(self.loops))

    def c(self, st, v):
        """Content of a value: for arrays what the heap holds now."""
        if v.kind in ("arr", "sp") and v.objs:
            if len(v.objs) == 1:
                (o,) = v.objs
                cell = st.heap.get(o)
                if cell is None or cell.v is None:
                    return v
                return cell.v
            cells = [st.heap[o] for o in sorted(v.objs) if o in st.heap and st.heap[o].v is not None]
            if not cells:
                return v
            vs = [c.v for c in cells]
            r = vs[0]
            same = all(x.key() == r.key() for x in vs)
            if same:
                return r
            term = None
            if v.extra and isinstance(v.extra, tuple) and v.extra[0] == "snap":
                if all(st.heap[o].v.term is t for o, t in v.extra[1] if o in st.heap and st.heap[o].v is not None):
                    term = v.term
            r = self.join_many(vs, term)
            return r
        return v

    def join_many(self, vs, term):
        r = vs[0]
        for x in vs[1:]:
            r = self.join_attr(r, x)
        return r.r(term=term)

    def join_attr(self, a, b):
        """Join of everything except term/objs/items."""
        def eq(x, y):
            return x if x == y else None
        dt = a.dt if a.dt == b.dt else (None if (a.dt is None or b.dt is None) else
                                        ("i" if {a.dt, b.dt} == {"i", "b"} else
                                         ("c" if {a.dt, b.dt} <= {"i", "f", "c", "b"} else None)))
        unit = self.join_unit(a.unit, b.unit)
        rng = None
        if a.rng is not None and b.rng is not None:
            rng = (min(a.rng[0], b.rng[0]), max(a.rng[1], b.rng[1]))
        axes = a.axes if a.axes == b.axes else None
        if axes is None and a.axes is not None and b.axes is not None and len(a.axes) == len(b.axes):
            axes = tuple(x if x == y else None for x, y in zip(a.axes, b.axes))
        c = a.const if (a.known and b.known and type(a.const) is type(b.const) and (a.const == b.const)) else NOCONST
        return V(a.kind, c, None, NOOBJ, None, a.fn if a.fn is b.fn else None, unit, dt, axes,
                 eq(a.idx, b.idx), rng, a.deps | b.deps, eq(a.fmt, b.fmt), a.extra if a.extra == b.extra else None)

    def join_unit(self, a, b):
        if a == POLY:
            return b
        if b == POLY:
            return a
        if a == TOP or b == TOP:
            return TOP
        if self.units.norm(a) == self.units.norm(b):
            return a
        if self.units.unify(a, b):
            return self.units.norm(a)
        return TOP

    def alloc(self, st, node, tag, cell):
        oid = self.site(st, node, tag)
        if oid in st.heap:
            self._retire(st, oid)
        st.heap[oid] = cell
        return oid

    def _retire(self, st, oid):
        """The site allocates again: older object becomes the summary of its predecessors if still referenced."""
        old = oid + "'"
        ref = False

        def sub(v):
            nonlocal ref
            if v is None:
                return v
            ch = {}
            if oid in v.objs:
                ref = True
                ch["objs"] = frozenset(old if o == oid else o for o in v.objs)
            if isinstance(v.items, tuple):
                ni = tuple(sub(i) for i in v.items)
                if any(x is not y for x, y in zip(ni, v.items)):
                    ch["items"] = ni
            elif isinstance(v.items, dict):
                ni = {k: sub(i) for k, i in v.items.items()}
                if any(ni[k] is not v.items[k] for k in ni):
                    ch["items"] = ni
            if isinstance(v.fn, Bound):
                sub(v.fn.self_v)
            return v.r(**ch) if ch else v

        for fr in st.frames.values():
            for k, v in list(fr.items()):
                n = sub(v)
                if n is not v:
                    fr[k] = n
        for o, c in list(st.heap.items()):
            if o == oid:
                continue
            if oid in c.bases:
                ref = True
                c.bases = frozenset(old if b == oid else b for b in c.bases)
            if c.attrs:
                for k, v in list(c.attrs.items()):
                    c.attrs[k] = sub(v)
            if isinstance(c.items, list):
                c.items = [sub(v) for v in c.items]
            elif isinstance(c.items, dict):
                c.items = {k: sub(v) for k, v in c.items.items()}
            if c.elem is not None:
                c.elem = sub(c.elem)
        cell = st.heap.pop(oid)
        if ref:
            if old in st.heap:
                prev = st.heap[old]
                if cell.v is not None and prev.v is not None:
                    cell = cell.copy()
                    cell.v = self.join_attr(cell.v, prev.v).r(term=T.mk("fresh", "unk@summary:" + old, loops=tuple(self.loops)))
            st.heap[old] = cell

    def arr(self, st, node, tag, content, bases=NOOBJ):
        """New array object; returns the reference."""
        content = content.r(kind="arr", objs=NOOBJ, const=NOCONST)
        if content.term is not None:
            self.tkind[content.term] = "a"
            if content.unit not in (TOP,):
                self.tunit[content.term] = content.unit
        oid = self.alloc(st, node, tag, Cell("arr", content, frozenset(bases)))
        return V("arr", objs=frozenset([oid]))

    def bases_of(self, st, objs):
        seen = set()
        todo = list(objs)
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            c = st.heap.get(o)
            if c is not None:
                todo += list(c.bases)
        return seen

    def write(self, st, ref, content, node, how, strong=True, **info):
        """In-place update of the object(s) behind ref."""
        objs = ref.objs
        allb = self.bases_of(st, objs)
        self.emit("mutate", st, node, objs=frozenset(allb), direct=objs, how=how, content=content, **info)
        single = len(objs) == 1 and not next(iter(objs)).endswith("'")
        for o in objs:
            cell = st.heap.get(o)
            if cell is None or cell.v is None:
                continue
            if single and strong:
                cell.v = content.r(kind=cell.v.kind, objs=NOOBJ)
                if content.term is not None:
                    self.tkind[content.term] = "a"
            else:
                j = self.join_attr(cell.v, content)
                cell.v = j.r(kind=cell.v.kind, term=self.unk(st, node, "w"), objs=NOOBJ)
        # views and bases share storage
        for o in allb - set(objs):
            cell = st.heap.get(o)
            if cell is not None and cell.v is not None:
                j = cell.v.r(deps=cell.v.deps | content.deps)
                if cell.v.unit == POLY and content.unit != POLY:
                    j = j.r(unit=content.unit)
                cell.v = j.r(term=self.unk(st, node, "vb" + o))
        for o, cell in st.heap.items():
            if o in allb or cell.v is None:
                continue
            if cell.bases and self.bases_of(st, [o]) & set(objs):
                cell.v = cell.v.r(term=self.unk(st, node, "vv" + o), deps=cell.v.deps | content.deps)

    def same_space(self, a, b):
        return self.find_space(a) == self.find_space(b)

    def find_space(self, a):
        while a in self.spaces:
            a = self.spaces[a]
        return a

    def union_space(self, a, b):
        a, b = self.find_space(a), self.find_space(b)
        if a != b:
            self.spaces[a] = b

    # ------------------------------------------------------------------ ranges
    def rng(self, st, v):
        r = v.rng
        t = v.term
        if t is not None:
            q = st.rngs.get(t)
            if q is not None:
                r = q if r is None else (max(r[0], q[0]), min(r[1], q[1]))
        return r

    # ------------------------------------------------------------------ facts
    NEG = {"lt": "ge", "le": "gt"}

    def fact(self, st, t):
        """Known truth of a condition term, or None."""
        if t.op == "not":
            f = self.fact(st, t.args[0])
            return None if f is None else (not f)
        if t.op == "const":
            return bool(t.args[0])
        f = st.facts.get(t)
        if f is not None:
            return f
        if t.op in ("lt", "le"):
            a, b = t.args
            if T.equal(a, b):
                return t.op == "le"
            o = st.facts.get(T.mk("le" if t.op == "lt" else "lt", b, a))
            if o is not None and o is True:      # b <= a -> not a < b ; b < a -> not a <= b
                return False
            if o is not None and o is False:     # not (b <= a) -> a < b (NaN aside)
                return True
            if t.op == "lt":
                if st.facts.get(T.mk("le", a, b)) is False or st.facts.get(T.mk("lt", b, a)) is True:
                    return False
                if st.facts.get(T.mk("eq", a, b)) is True or st.facts.get(T.mk("eq", b, a)) is True:
                    return False
            else:
                if st.facts.get(T.mk("lt", a, b)) is True:
                    return True
                if st.facts.get(T.mk("eq", a, b)) is True or st.facts.get(T.mk("eq", b, a)) is True:
                    return True
        if t.op == "eq":
            a, b = t.args
            o = st.facts.get(T.mk("eq", b, a))
            if o is not None:
                return o
            if T.equal(a, b):
                return True
            for x, y in ((a, b), (b, a)):
                if st.facts.get(T.mk("lt", x, y)) is True:
                    return False
        return None

    def assume(self, st, t, pol):
        if t.op == "not":
            return self.assume(st, t.args[0], not pol)
        st.facts[t] = pol

    # ------------------------------------------------------------------ join / widening
    def merge(self, states, joinid):
        """Group by partition key and join each group."""
        if len(states) <= 1:
            return states
        groups = {}
        order = []
        for s in states:
            k = s.pkey()
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(s)
        if len(order) > self.MAX_STATES:
            # too many partitions: coarsen on stack only
            g2 = {}
            for k in order:
                g2.setdefault((k[0], tuple(x for x in k[1:] if x[0] == "ts")), []).extend(groups[k])
            groups = g2
            order = list(g2)
            self.note("partition overflow")
        res = []
        for i, k in enumerate(order):
            g = groups[k]
            s = g[0]
            for t in g[1:]:
                s = self.join(s, t, joinid)
            res.append(s)
        return res

    def join(self, a, b, joinid, widen=False):
        if a is b:
            return a
        au = T.AU(joinid, tuple(self.loops))
        r = State()
        r.stack = a.stack
        r.pc = a.pc | b.pc
        xd = r.pc
        self._ja, self._jb = a, b
        for fid in sorted(set(a.frames) | set(b.frames)):
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is None or fb is None:
                r.frames[fid] = dict(fa if fa is not None else fb)
                continue
            fr = {}
            for n in sorted(set(fa) | set(fb)):
                x, y = fa.get(n, UNBOUND), fb.get(n, UNBOUND)
                au.slot = fid + "." + n
                fr[n] = self.jv(x, y, au, xd, widen)
            r.frames[fid] = fr
        for o in sorted(set(a.heap) | set(b.heap)):
            ca, cb = a.heap.get(o), b.heap.get(o)
            if ca is None or cb is None:
                r.heap[o] = (ca if ca is not None else cb).copy()
                continue
            if ca.key() == cb.key():
                r.heap[o] = ca.copy()
                continue
            ex = ca.extra if ca.extra == cb.extra else None
            if ca.kind == "dict" and (ca.extra or {}).get("default") is not None and (cb.extra or {}).get("default") is not None:
                ex = {k: v for k, v in ca.extra.items() if k in cb.extra and (cb.extra[k] is v or cb.extra[k] == v)}
                ex["default"] = ca.extra["default"]
                gone = [k for k in ca.extra.get("deleted", ()) if k in cb.extra.get("deleted", ())]
                ex.pop("deleted", None)
                if gone:
                    ex["deleted"] = tuple(gone)
                ka, kb = set(ca.items or ()), set(cb.items or ())
                if ka != kb or ca.extra.get("loose") or cb.extra.get("loose"):
                    ex["loose"] = True
            c = Cell(ca.kind, bases=ca.bases | cb.bases, cls=ca.cls, extra=ex)
            if ca.v is not None and cb.v is not None:
                au.slot = "h:" + o
                c.v = self.jv(ca.v, cb.v, au, xd, widen)
            if ca.attrs is not None and cb.attrs is not None:
                c.attrs = {}
                for n in sorted(set(ca.attrs) | set(cb.attrs)):
                    au.slot = "h:" + o + "." + n
                    c.attrs[n] = self.jv(ca.attrs.get(n, UNBOUND), cb.attrs.get(n, UNBOUND), au, xd, widen)
            if isinstance(ca.items, dict) and isinstance(cb.items, dict):
                c.items = {}
                for k in ca.items:
                    if k in cb.items:
                        au.slot = "h:%s[%s]" % (o, T.show(k) if isinstance(k, T.Term) else k)
                        c.items[k] = self.jv(ca.items[k], cb.items[k], au, xd, widen)
            elif isinstance(ca.items, list) and isinstance(cb.items, list) and len(ca.items) == len(cb.items):
                c.items = []
                for i, (x, y) in enumerate(zip(ca.items, cb.items)):
                    au.slot = "h:%s[%d]" % (o, i)
                    c.items.append(self.jv(x, y, au, xd, widen))
            else:
                els = [e for e in (list(ca.items) if isinstance(ca.items, list) else []) +
                       (list(cb.items) if isinstance(cb.items, list) else [])]
                els += [e for e in (ca.elem, cb.elem) if e is not None]
                c.items = None
                if els:
                    e = els[0]
                    for z in els[1:]:
                        au.slot = "h:%s[*]" % o
                        e = self.jv(e, z, au, xd, widen)
                    c.elem = e
            if ca.elem is not None and cb.elem is not None and c.elem is None:
                au.slot = "h:%s[*]" % o
                c.elem = self.jv(ca.elem, cb.elem, au, xd, widen)
            elif c.elem is None:
                c.elem = ca.elem if ca.elem is not None else cb.elem
            r.heap[o] = c
        r.facts = {k: v for k, v in a.facts.items() if b.facts.get(k, None) is v or b.facts.get(k) == v}
        # facts over joined terms: anti-unify fact pairs that have already been named
        if len(a.facts) * len(b.facts) <= 2500:
            for ka, va in a.facts.items():
                for kb, vb in b.facts.items():
                    if ka is not kb and va == vb and ka.op == kb.op and ka.op in ("lt", "le", "eq") and len(ka.args) == 2:
                        na = []
                        for p, q in zip(ka.args, kb.args):
                            if p is q:
                                na.append(p)
                            else:
                                m = au.memo.get((p, q))
                                if m is None and va and not widen and p.op == q.op and ka.args[1] is kb.args[1] and ka.args[1].op == "sym" and ka.args[1].args[0] == "tol":
                                    au.slot = "fact"
                                    m = au(p, q)
                                    if m.op == "phi":
                                        m = None
                                if m is None:
                                    break
                                na.append(m)
                        else:
                            r.facts[T.mk(ka.op, *na)] = va
        for k, q in a.rngs.items():
            p = b.rngs.get(k)
            if p is not None:
                r.rngs[k] = (min(q[0], p[0]), max(q[1], p[1]))
        for k in a.ts:
            if k in b.ts:
                if a.ts[k] == b.ts[k]:
                    r.ts[k] = a.ts[k]
                else:
                    jt = self.client.join_ts(k, a.ts[k], b.ts[k]) if hasattr(self.client, "join_ts") else None
                    if jt is not None:
                        r.ts[k] = jt
        return r

    def jv(self, x, y, au, xd, widen):
        if x is y or x.key() == y.key():
            return x
        if x.kind == "unbound" or y.kind == "unbound":
            z = y if x.kind == "unbound" else x
            return z.r(extra=z.extra if z.extra is not None else None) if z.kind != "unbound" else UNBOUND
        if x.kind != y.kind:
            if {x.kind, y.kind} <= {"num", "arr"}:
                pass
            return V("any", deps=x.deps | y.deps | xd, term=None)
        deps = x.deps | y.deps | xd
        j = self.join_attr(x, y)
        if x.kind == "num" and y.kind == "num" and x.dt == "i" and y.dt == "i" and j.idx is None and x.term is not y.term:
            # an integer that varies: a counter, unless one side says what it indexes
            ids = {i for i, v in ((x.idx, x), (y.idx, y)) if i not in (None, "0")}
            free = all(v.known or v.idx in (None, "0") for v in (x, y) if v.idx in (None, "0"))
            if len(ids) == 1 and all(v.known for v in (x, y) if v.idx in (None, "0")):
                j.idx = next(iter(ids))
            elif not ids:
                j.idx = "n:" + au.slot
        if widen and j.rng is not None and x.rng is not None and j.rng != x.rng:
            lo = x.rng[0] if j.rng[0] >= x.rng[0] else (0 if j.rng[0] >= 0 else (-1 if j.rng[0] >= -1 else -INF))
            hi = x.rng[1] if j.rng[1] <= x.rng[1] else (1 if (j.rng[1] <= 1) else INF)
            j.rng = (lo, hi)
        objs = x.objs | y.objs
        items = None
        slot = au.slot
        if isinstance(x.items, tuple) and isinstance(y.items, tuple) and len(x.items) == len(y.items):
            its = []
            for i, (p, q) in enumerate(zip(x.items, y.items)):
                au.slot = slot + "[%d]" % i
                its.append(self.jv(p, q, au, xd, widen))
            items = tuple(its)
        elif isinstance(x.items, dict) and isinstance(y.items, dict):
            items = {}
            for k in x.items:
                if k in y.items:
                    au.slot = slot + "." + str(k)
                    items[k] = self.jv(x.items[k], y.items[k], au, xd, widen)
        au.slot = slot
        if objs and x.objs != y.objs and x.kind in ("arr", "sp"):
            ca, cb = self.c(self._ja, x), self.c(self._jb, y)
            term = au(ca.term, cb.term) if ca.term is not None and cb.term is not None else None
            snap = []
            for o in sorted(objs):
                # content term the object has in the joined state, as the heap slots will compute it later
                ta = self._ja.heap.get(o)
                tb = self._jb.heap.get(o)
                if ta is not None and tb is not None and ta.v is not None and tb.v is not None:
                    sl = au.slot
                    au.slot = "h:" + o
                    snap.append((o, au(ta.v.term, tb.v.term) if ta.v.term is not None and tb.v.term is not None else None))
                    au.slot = sl
                else:
                    cc = ta if ta is not None else tb
                    if cc is not None and cc.v is not None:
                        snap.append((o, cc.v.term))
            if term is not None:
                self.tkind.setdefault(term, "a")
                u = self.join_unit(ca.unit, cb.unit)
                if u != TOP:
                    self.tunit.setdefault(term, u)
            return V(x.kind, objs=objs, term=term, extra=("snap", tuple(snap)), deps=deps)
        term = None
        if x.term is not None and y.term is not None:
            term = au(x.term, y.term)
            if term.op == "phi":
                if x.kind == "arr" or self.tkind.get(x.term) == "a":
                    self.tkind.setdefault(term, "a")
                elif x.kind == "num":
                    self.tkind.setdefault(term, "s")
                if j.unit != TOP:
                    self.tunit.setdefault(term, j.unit)
        elif x.kind in ("num", "arr"):
            term = T.mk("fresh", "unk@join:%s:%s" % (au.joinid, slot), loops=tuple(self.loops))
        j.objs, j.items, j.term, j.deps = objs, items, term, deps
        if x.kind == "func" and (x.fn is not y.fn and x.fn != y.fn):
            return vany(deps)
        if x.kind == "tuple" and items is None:
            return V("tuple", deps=deps)
        return j

    def age_state(self, st, loop):
        memo = {}

        def at(t):
            return T.age(t, loop, memo) if t is not None else None

        def note(t, n):
            if n is not t:
                k = self.tkind.get(t)
                if k:
                    self.tkind.setdefault(n, k)
                u = self.tunit.get(t)
                if u is not None:
                    self.tunit.setdefault(n, u)

        def av(v):
            if v is None:
                return v
            ch = {}
            if v.term is not None and loop in v.term.loops:
                n = at(v.term)
                note(v.term, n)
                ch["term"] = n
            if isinstance(v.items, tuple):
                ni = tuple(av(i) for i in v.items)
                if any(p is not q for p, q in zip(ni, v.items)):
                    ch["items"] = ni
            elif isinstance(v.items, dict):
                ni = {k: av(i) for k, i in v.items.items()}
                if any(ni[k] is not v.items[k] for k in ni):
                    ch["items"] = ni
            if isinstance(v.extra, tuple) and v.extra and v.extra[0] == "snap":
                ch["extra"] = ("snap", tuple((o, at(t)) for o, t in v.extra[1]))
            elif isinstance(v.extra, dict) and v.extra:
                ne = {k: (at(z) if isinstance(z, T.Term) else (av(z) if isinstance(z, V) else (tuple(av(q) if isinstance(q, V) else q for q in z) if isinstance(z, tuple) else z))) for k, z in v.extra.items()}
                if any(ne[k] is not v.extra[k] for k in ne):
                    ch["extra"] = ne
            return v.r(**ch) if ch else v

        for fr in st.frames.values():
            for k, v in fr.items():
                n = av(v)
                if n is not v:
                    fr[k] = n
        for c in st.heap.values():
            if c.v is not None:
                c.v = av(c.v)
            if c.attrs:
                for k, v in c.attrs.items():
                    c.attrs[k] = av(v)
            if isinstance(c.items, list):
                c.items = [av(v) for v in c.items]
            elif isinstance(c.items, dict):
                c.items = {(at(k) if isinstance(k, T.Term) else k): av(v) for k, v in c.items.items()}
                if c.extra and c.extra.get("deleted"):
                    c.extra = dict(c.extra, deleted=tuple(at(k) if isinstance(k, T.Term) else k for k in c.extra["deleted"]))
            if c.elem is not None:
                c.elem = av(c.elem)
        st.facts = {at(k): v for k, v in st.facts.items() if loop not in k.loops or True}
        if len(st.facts) > 60:
            st.facts = {k: v for k, v in st.facts.items() if k.op not in ("lt", "le", "eq") or not T.contains(k, lambda z: z.op == "old")}
        st.rngs = {at(k): v for k, v in st.rngs.items()}
        for k in list(st.ts):
            v = st.ts[k]
            if isinstance(v, T.Term):
                st.ts[k] = at(v)
            elif k.startswith("_") and isinstance(v, (tuple, frozenset)):
                st.ts[k] = _map_terms(v, at)
        return st

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, states):
        out = Out()
        cur = states
        for s in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                o = self.exec_stmt(s, st)
                nxt += o.nxt
                out.absorb(o)
            if len(nxt) > 1:
                fid = nxt[0].stack[-1] if nxt[0].stack else "top"
                nxt = self.merge(nxt, "%s:J%s.%s" % (fid, s.lineno, s.col_offset))
            cur = nxt
        out.nxt = cur
        return out

    def with_exc(self, f):
        """Run f collecting exceptions raised by expression evaluation."""
        self.excs.append([])
        try:
            r = f()
        finally:
            ex = self.excs.pop()
        return r, ex

    def throw(self, st, v, node):
        if self.excs:
            self.excs[-1].append((st, v))

    def exec_stmt(self, s, st):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget("step budget exhausted")
        m = getattr(self, "s_" + type(s).__name__, None)
        out = Out()
        if m is None:
            self.note("statement %s" % type(s).__name__, s)
            out.nxt = [self.havoc(st, s)]
            return out

        def run():
            return m(s, st)

        r, ex = self.with_exc(run)
        if isinstance(r, Out):
            out = r
        else:
            out.nxt = r
        out.exc += ex
        return out

    def havoc(self, st, node):
        fr = st.frames[st.stack[-1]]
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                fr[n.id] = vany()
        return st

    def s_Pass(self, s, st):
        return [st]

    def s_Global(self, s, st):
        return [st]

    s_Nonlocal = s_Global

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [st]
        return [x for x, _ in self.ev(s.value, st)]

    def s_Import(self, s, st):
        fr = st.frames[st.stack[-1]]
        for a in s.names:
            nm = (a.asname or a.name.split(".")[0])
            full = a.name if a.asname else a.name.split(".")[0]
            fr[nm] = self.modval(full)
        return [st]

    def s_ImportFrom(self, s, st):
        fr = st.frames[st.stack[-1]]
        m = self.fmods[st.stack[-1]]
        base = self.prog.resolve_import(m, s)
        for a in s.names:
            fr[a.asname or a.name] = self.attr_of_module(st, base, a.name, s)
        return [st]

    def modval(self, full):
        return V("mod", const=full, term=T.const(full))

    def s_FunctionDef(self, s, st):
        fid = st.stack[-1]
        res = []
        for st2, f in self.make_func(s, st, self.fmods[fid], fid):
            res += self.bind_name(st2, s.name, f, s)
        return res

    def make_func(self, node, st, module, closure):
        if isinstance(node, ast.Lambda):
            name = "<lambda>"
        else:
            name = node.name
        a = node.args
        outs = []
        for st2, dv in self.ev_many(list(a.defaults) + [d for d in a.kw_defaults if d is not None], st):
            nd = len(a.defaults)
            kw = {}
            i = nd
            for arg, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    kw[arg.arg] = dv[i]
                    i += 1
            defaults = tuple(self.default_unit(v, node) for v in dv[:nd])
            k = (id(node), closure, tuple(v.key() for v in dv))
            f = self.fcache.get(k)
            if f is None:
                f = RepoFunc(node, module, closure, name, defaults, kw)
                self.fcache[k] = f
            v = V("func", fn=f, term=T.mk("fn", module.name + "." + name, str(closure)))
            if not isinstance(node, ast.Lambda):
                v = self.decorate(node, v, st2)
            outs.append((st2, v))
        return outs

    def default_unit(self, v, node):
        if v.kind == "num" and v.known and v.unit == ONE and not isinstance(v.const, bool):
            return v.r(unit=(("?d%d_%s" % (node.lineno, v.const), 1),)) if False else v
        return v

    def decorate(self, node, v, st):
        for d in node.decorator_list:
            q = self.deco_name(d, st)
            if q is None:
                return vany()
            if q.split(".")[-1] in ("njit", "jit", "wraps", "lru_cache", "cache", "staticmethod", "classmethod", "property", "vectorize", "cached_property"):
                continue
            return vany()
        return v

    def deco_name(self, d, st):
        n = d
        if isinstance(n, ast.Call):
            n = n.func
        try:
            return ast.unparse(n)
        except Exception:
            return None

    def s_ClassDef(self, s, st):
        fid = st.stack[-1]
        c = self.ccache.get(id(s))
        if c is None:
            c = self.ccache[id(s)] = RepoClass(s, self.fmods[fid])
        st.frames[fid][s.name] = V("class", fn=c)
        return [st]

    def s_Return(self, s, st):
        out = Out()
        if s.value is None:
            out.ret.append((st, NONE))
        else:
            for st2, v in self.ev(s.value, st):
                out.ret.append((st2, v))
        return out

    def s_Break(self, s, st):
        out = Out()
        out.brk.append(st)
        return out

    def s_Continue(self, s, st):
        out = Out()
        out.cont.append(st)
        return out

    def s_Raise(self, s, st):
        out = Out()
        if s.exc is None:
            self.emit("raise", st, s, exc=vany())
            out.exc.append((st, vany()))
            return out
        for st2, v in self.ev(s.exc, st):
            self.emit("raise", st2, s, exc=v)
            out.exc.append((st2, v))
        return out

    def s_Assert(self, s, st):
        t, f = self.branch_expr(s.test, [st])
        for x in f:
            self.throw(x, vany(), s)
        return t

    def s_Delete(self, s, st):
        states = [st]
        for t in s.targets:
            n = []
            for x in states:
                if isinstance(t, ast.Name):
                    x.frames[x.stack[-1]][t.id] = UNBOUND
                    n.append(x)
                elif isinstance(t, ast.Subscript):
                    for y, (b, i) in self.ev_many([t.value, t.slice], x):
                        self.del_item(y, b, i, s)
                        n.append(y)
                else:
                    n.append(x)
            states = n
        return states

    def del_item(self, st, b, i, node):
        if b.kind == "dict":
            k = self.term_of(st, i)
            self.emit("dict_del", st, node, d=b, key=k, keyv=i)
            for o in b.objs:
                c = st.heap.get(o)
                if c is not None and isinstance(c.items, dict):
                    c.items.pop(k, None)
                    c.extra = dict(c.extra or {})
                    c.extra["deleted"] = tuple(c.extra.get("deleted", ())) + (k,)

    def s_If(self, s, st):
        pc0 = st.pc
        t, f = self.branch_expr(s.test, [st])
        ot = self.exec_block(s.body, t) if t else Out()
        of = self.exec_block(s.orelse, f) if f else Out()
        # a branch that only raises is a guard, not an influence
        if t and f:
            alive_t = bool(ot.nxt or ot.brk or ot.cont or ot.ret)
            alive_f = bool(of.nxt or of.brk or of.cont or of.ret)
            if alive_t != alive_f:
                o = ot if alive_t else of
                for x in o.nxt + o.brk + o.cont + [y for y, _ in o.ret]:
                    x.pc = pc0 | (x.pc - _pcdelta(pc0, t, f))
        out = Out()
        out.absorb(ot)
        out.absorb(of)
        nxt = ot.nxt + of.nxt
        if len(nxt) > 1:
            nxt = self.merge(nxt, "%s:I%s.%s" % (st.stack[-1], s.lineno, s.col_offset))
        out.nxt = nxt
        return out

    def s_With(self, s, st):
        states = [st]
        for item in s.items:
            n = []
            for x in states:
                for y, v in self.ev(item.context_expr, x):
                    self.emit("with", y, s, v=v)
                    if item.optional_vars is not None:
                        n += self.assign(item.optional_vars, v, y, s)
                    else:
                        n.append(y)
            states = n
        o = self.exec_block(s.body, states)
        for y in o.nxt:
            self.emit("with_exit", y, s)
        return o

    def s_Try(self, s, st):
        # conservative: the body may raise at any point; handlers run from the state before and after
        pre = st.copy()
        o = self.exec_block(s.body, [st])
        out = Out()
        out.brk, out.cont, out.ret = o.brk, o.cont, o.ret
        nxt = list(o.nxt)
        if s.orelse:
            oe = self.exec_block(s.orelse, nxt)
            out.absorb(oe)
            nxt = oe.nxt
        if s.handlers:
            hs = [x for x, _ in o.exc] + [pre]
            hs = self.merge(hs, "%s:T%s" % (st.stack[-1], s.lineno))
            for h in s.handlers:
                for x in hs:
                    x = x.copy()
                    if h.name:
                        x.frames[x.stack[-1]][h.name] = vany()
                    x.ts["handler"] = True
                    oh = self.exec_block(h.body, [x])
                    for y in oh.nxt + [z for z, _ in oh.ret] + oh.brk + oh.cont:
                        y.ts.pop("handler", None)
                    out.absorb(oh)
                    nxt += oh.nxt
        else:
            out.exc += o.exc
        if s.finalbody:
            res = Out()
            of = self.exec_block(s.finalbody, nxt)
            nxt = of.nxt
            out.absorb(of)
            rr = []
            for x, v in out.ret:
                of = self.exec_block(s.finalbody, [x])
                rr += [(y, v) for y in of.nxt]
            out.ret = rr
        out.nxt = self.merge(nxt, "%s:T%s" % (st.stack[-1], s.lineno))
        return out

    s_TryStar = s_Try

    def s_Assign(self, s, st):
        res = []
        for st2, v in self.ev(s.value, st):
            if isinstance(s.value, (ast.Constant, ast.UnaryOp)):
                v = self.literal_var(v, s, st2)
            states = [st2]
            for t in s.targets:
                states = [y for x in states for y in self.assign(t, v, x, s)]
            res += states
        return res

    def literal_var(self, v, node, st):
        """A literal is dimensionless whether or not it is given a name (absolute tolerances apart, see num_unit);
        a small one (an initial guess, a perturbation) carries the single unit its uses give it."""
        if v.kind == "num" and v.known and not isinstance(v.const, bool) and v.unit == ONE and abs(v.const) <= 1e-2:
            return v.r(unit=(("?%s" % self.site(st, node), 1),))
        return v

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [st]
        res = []
        for st2, v in self.ev(s.value, st):
            if isinstance(s.value, (ast.Constant, ast.UnaryOp)):
                v = self.literal_var(v, s, st2)
            res += self.assign(s.target, v, st2, s)
        return res

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            return self.bind_name(st, t.id, v, node)
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, v, st, node)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        if isinstance(t, ast.Subscript):
            res = []
            for st2, (b, i) in self.ev_many([t.value, t.slice], st):
                res += self.lib.store_subscript(self, st2, b, i, v, node, None)
            return res
        if isinstance(t, ast.Attribute):
            res = []
            for st2, b in self.ev(t.value, st):
                self.store_attr(st2, b, t.attr, v, node)
                res.append(st2)
            return res
        return [st]

    def store_attr(self, st, b, name, v, node):
        if b.kind == "inst":
            for o in b.objs:
                c = st.heap.get(o)
                if c is not None and c.attrs is not None:
                    if len(b.objs) == 1:
                        c.attrs[name] = v
                    else:
                        c.attrs[name] = vany()
        elif b.kind in ("arr", "sp"):
            self.emit("mutate", st, node, objs=frozenset(self.bases_of(st, b.objs)), direct=b.objs, how="attribute ." + name, content=v)

    def bind_name(self, st, name, v, node):
        fid = st.stack[-1]
        # names declared nonlocal/global
        owner = self.scope_owner(fid, name)
        self.emit("bind", st, node, name=name, v=v, fid=owner or fid)
        st.frames[owner or fid][name] = v
        return [st]

    def scope_owner(self, fid, name):
        fn = self.fnode.get(fid)
        decl = self._decl(fn)
        if name in decl:
            p = self.parents.get(fid)
            while p is not None:
                if name in self._locals(self.fnode.get(p)):
                    return p
                p = self.parents.get(p)
        return None

    def _decl(self, fn):
        if fn is None:
            return ()
        d = getattr(fn, "_nonlocals", None)
        if d is None:
            d = set()
            for n in ast.walk(fn):
                if isinstance(n, (ast.Nonlocal,)):
                    d.update(n.names)
            fn._nonlocals = d
        return d

    def _locals(self, fn):
        if fn is None:
            return ()
        d = getattr(fn, "_localnames", None)
        if d is None:
            d = local_names(fn) | {a.arg for a in _allargs(fn)}
            fn._localnames = d
        return d

    def unpack(self, elts, v, st, node):
        items = self.items_of(st, v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if items is not None and not star and len(items) != len(elts):
            self.emit("unpack_mismatch", st, node, want=len(elts), got=len(items), v=v)
            self.throw(st, vany(), node)
            return []
        if items is None or (star and len(items) < len(elts) - 1):
            vals = []
            c = self.c(st, v)
            for i, e in enumerate(elts):
                if v.kind == "none":
                    self.emit("unpack_mismatch", st, node, want=len(elts), got=None, v=v)
                    self.throw(st, vany(), node)
                    return []
                if v.kind == "arr":
                    vals.append(V("num", term=T.mk("item", i, self.term_of(st, v)), unit=c.unit, dt=c.dt, deps=c.deps))
                elif v.kind == "any" and v.term is not None:
                    vals.append(V("any", term=T.mk("item", i, v.term), deps=v.deps))
                else:
                    vals.append(vany(v.deps))
        elif star:
            k = star[0]
            after = len(elts) - k - 1
            vals = list(items[:k]) + [V("tuple", items=tuple(items[k:len(items) - after]))] + list(items[len(items) - after:] if after else [])
        else:
            vals = list(items)
        states = [st]
        for e, x in zip(elts, vals):
            states = [z for y in states for z in self.assign(e, x, y, node)]
        return states

    def items_of(self, st, v):
        if v.kind in ("tuple",) and isinstance(v.items, tuple):
            return v.items
        if v.kind == "list":
            its = None
            for o in v.objs:
                c = st.heap.get(o)
                if c is None or not isinstance(c.items, list) or len(v.objs) > 1:
                    return None
                its = tuple(c.items)
            return its
        if v.kind == "set" and isinstance(v.items, tuple):
            return v.items
        if v.kind == "range" and v.extra and all(isinstance(z, V) and z.known for z in v.extra["a"]):
            try:
                r = range(*[int(z.const) for z in v.extra["a"]])
                if len(r) <= 4:
                    return tuple(vnum(i) for i in r)
            except Exception:
                pass
        return None

    def s_AugAssign(self, s, st):
        op = type(s.op).__name__
        t = s.target
        res = []
        if isinstance(t, ast.Name):
            for st2, (b, v) in self.ev_many([ast.copy_location(_load(t), t), s.value], st):
                if b.kind in ("arr",) or (b.kind == "sp" and False):
                    res += self.lib.aug_array(self, st2, b, v, op, s, None)
                elif b.kind == "list":
                    self.lib.list_extend(self, st2, b, v, s)
                    res.append(st2)
                else:
                    for st3, r in self.lib.binop(self, st2, op, b, v, s):
                        res += self.bind_name(st3, t.id, r, s)
            return res
        if isinstance(t, ast.Subscript):
            for st2, (b, i, v) in self.ev_many([t.value, t.slice, s.value], st):
                for st3, old in self.lib.load_subscript(self, st2, b, i, s):
                    if b.kind in ("arr", "sp"):
                        for st4, nv in self.lib.binop(self, st3, op, self.as_value(st3, old, s), v, s):
                            res += self.lib.store_subscript(self, st4, b, i, nv, s, (op, v))
                    elif old.kind == "arr":
                        res += self.lib.aug_array(self, st3, old, v, op, s, None)
                    else:
                        for st4, nv in self.lib.binop(self, st3, op, old, v, s):
                            res += self.lib.store_subscript(self, st4, b, i, nv, s, (op, v))
            return res
        if isinstance(t, ast.Attribute):
            for st2, (b, v) in self.ev_many([t.value, s.value], st):
                for st3, old in self.getattr(st2, b, t.attr, s):
                    if old.kind == "arr":
                        res += self.lib.aug_array(self, st3, old, v, op, s, None)
                    else:
                        for st4, nv in self.lib.binop(self, st3, op, old, v, s):
                            self.store_attr(st4, b, t.attr, nv, s)
                            res.append(st4)
            return res
        return [st]

    def as_value(self, st, v, node):
        """Detached copy of the content (for read-modify-write through a subscript)."""
        if v.kind == "arr":
            return self.arr(st, node, "rmw", self.c(st, v))
        return v

    # ------------------------------------------------------------------ loops
    def s_While(self, s, st):
        return self.run_loop(s, st, None)

    def s_For(self, s, st):
        out = Out()
        for st2, itv in self.ev(s.iter, st):
            items = self.items_of(st2, itv)
            if items is not None and len(items) <= 16 and itv.kind != "range":
                o = self.unroll(s, st2, items)
            elif items is not None and itv.kind == "range" and len(items) <= 4 and not _has_loopctl(s):
                o = self.unroll(s, st2, items)
            else:
                o = self.run_loop(s, st2, itv)
            out.absorb(o)
            out.nxt += o.nxt
        return out

    def unroll(self, s, st, items):
        out = Out()
        cur = [st]
        brk = []
        for x in items:
            nxt = []
            for y in cur:
                for z in self.assign(s.target, x, y, s):
                    o = self.exec_block(s.body, [z])
                    nxt += o.nxt + o.cont
                    brk += o.brk
                    out.ret += o.ret
                    out.exc += o.exc
            cur = self.merge(nxt, "%s:U%s" % (st.stack[-1], s.lineno))
        if s.orelse:
            o = self.exec_block(s.orelse, cur)
            out.absorb(o)
            cur = o.nxt
        out.nxt = self.merge(cur + brk, "%s:UE%s" % (st.stack[-1], s.lineno))
        return out

    def run_loop(self, s, st0, itv):
        lid = "%s:L%s.%s" % (st0.stack[-1], s.lineno, s.col_offset)
        joinid = lid + ":H"
        rec = self.recording
        ck = (id(s), st0.fingerprint(), itv.key() if itv is not None else None, tuple(self.loops))
        hit = self.loop_cache.get(ck)
        if hit is not None and not rec and hit[1] is not None:
            o = hit[1]
            out = o.copy()
            self.emit("loop_enter", st0, s, lid=lid, itv=itv)
            return out
        self.emit("loop_enter", st0, s, lid=lid, itv=itv)
        self.loops.append(lid)
        self.recording = False
        dead = dead_at(s)
        self.kill_dead(st0, dead)
        k0 = (st0.pkey(), "0")
        heads = {k0: st0}
        prints = {k0: st0.fingerprint()}
        rounds = 0
        dirty = [k0]
        if hit is not None:
            heads, dirty = {k: h.copy() for k, h in hit[0].items()}, []
        while dirty:
            rounds += 1
            if rounds > self.MAX_ROUNDS:
                self.note("loop did not stabilise", s)
                break
            todo, dirty = dirty, []
            new = {}
            for k in todo:
                o, ex = self.with_exc(lambda: self.iterate(s, heads[k].copy(), itv, lid, first=(k[1] == "0")))
                for b in o["back"]:
                    self.kill_dead(b, dead)
                    self.age_state(b, lid)
                    new.setdefault((b.pkey(), "1"), []).append(b)
            for k, bs in new.items():
                old = heads.get(k)
                cur = old
                if cur is not None:
                    cur = cur.copy()
                for b in bs:
                    cur = b if cur is None else self.join(cur, b, joinid, widen=rounds > 3)
                if rounds > 9:
                    cur = self.hard_widen(cur, old, joinid)
                fp = cur.fingerprint()
                if prints.get(k) != fp:
                    heads[k] = cur
                    prints[k] = fp
                    dirty.append(k)
            if len(heads) > self.MAX_STATES:
                self.note("too many loop partitions", s)
                break
        self.recording = rec
        if hit is None:
            self.loop_cache[ck] = (({k: h.copy() for k, h in heads.items()}), None)
        out = Out()
        exits, brks = [], []
        for k in list(heads):
            r, ex = self.with_exc(lambda: self.iterate(s, heads[k].copy(), itv, lid, first=(k[1] == "0"), final=True))
            exits += r["exit"]
            brks += r["brk"]
            out.ret += r["ret"]
            out.exc += r["exc"] + ex
            for b in r["back"]:
                self.emit("backedge", b, s, lid=lid)
        self.loops.pop()
        for e in exits:
            self.emit("loop_exit", e, s, lid=lid, how="exhausted")
        for e in brks:
            self.emit("loop_exit", e, s, lid=lid, how="break")
        exits = self.merge(exits, lid + ":X")
        if s.orelse:
            o = self.exec_block(s.orelse, exits)
            out.absorb(o)
            exits = o.nxt
        out.nxt = self.merge(exits + brks, lid + ":E")
        if not rec:
            self.loop_cache[ck] = (self.loop_cache[ck][0], out.copy())
        return out

    def kill_dead(self, st, dead):
        """Forget local variables that are assigned before any further read."""
        fr = st.frames[st.stack[-1]]
        for n in dead:
            v = fr.get(n)
            if v is not None and v.kind != "unbound":
                fr[n] = UNBOUND

    def hard_widen(self, cur, old, joinid):
        """Give up relations between the values that still change."""
        if old is None:
            return cur
        cur = cur.copy()
        for fid, fr in cur.frames.items():
            fo = old.frames.get(fid, {})
            for n, v in fr.items():
                o = fo.get(n)
                if o is not None and o.key() != v.key():
                    fr[n] = _wide(v, joinid, fid + "." + n, self.loops)
        for oid, c in cur.heap.items():
            o = old.heap.get(oid)
            if o is not None and o.key() != c.key() and c.v is not None:
                c.v = _wide(c.v, joinid, "h:" + oid, self.loops)
        return cur

    def iterate(self, s, st, itv, lid, first, final=False):
        """One abstract iteration from a loop head."""
        r = {"back": [], "exit": [], "brk": [], "ret": [], "exc": []}
        if isinstance(s, ast.While):
            t, f = self.branch_expr(s.test, [st])
            r["exit"] += f
            body = t
        else:
            can_exit, can_enter = True, True
            n = self.lib.iter_len_rng(self, st, itv)
            if n is not None:
                if n[0] >= 1 and first:
                    can_exit = False
                if n[1] <= 0:
                    can_enter = False
            if can_exit:
                e = st.copy() if can_enter else st
                e.pc = e.pc | itv.deps
                if self.lib.taints(itv):
                    pass
                r["exit"].append(e)
            body = []
            if can_enter:
                st.pc = st.pc | itv.deps
                self.emit("iter_start", st, s, lid=lid, itv=itv)
                for st2, x in self.lib.iter_elem(self, st, itv, s, lid):
                    body += self.assign(s.target, x, st2, s)
        for b in body:
            self.emit("body_start", b, s, lid=lid)
        o = self.exec_block(s.body, body)
        back = self.merge(o.nxt + o.cont, lid + ":B")
        for b in back:
            self.emit("body_end", b, s, lid=lid)
        r["back"] = back
        r["brk"] = o.brk
        r["ret"] = o.ret
        r["exc"] = o.exc
        return r

    # ------------------------------------------------------------------ conditions
    def branch_expr(self, e, states):
        """Evaluate a condition; returns (states where true, states where false)."""
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                cur, fs = states, []
                for x in e.values:
                    cur, f = self.branch_expr(x, cur)
                    fs += f
                return cur, self.merge(fs, "%s:C%s.%s" % (fs[0].stack[-1], e.lineno, e.col_offset)) if fs else fs
            cur, ts = states, []
            for x in e.values:
                t, cur = self.branch_expr(x, cur)
                ts += t
            return (self.merge(ts, "%s:C%s.%s" % (ts[0].stack[-1], e.lineno, e.col_offset)) if ts else ts), cur
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.branch_expr(e.operand, states)
            return f, t
        ts, fs = [], []
        for st in states:
            for st2, v in self.ev(e, st):
                a, b = self.branch(st2, v, e)
                if a is not None:
                    ts.append(a)
                if b is not None:
                    fs.append(b)
        if len(ts) > 1:
            ts = self.merge(ts, "%s:C%s.%s" % (ts[0].stack[-1], e.lineno, e.col_offset))
        if len(fs) > 1:
            fs = self.merge(fs, "%s:C%s.%s" % (fs[0].stack[-1], e.lineno, e.col_offset))
        return ts, fs

    def truth(self, st, v):
        if v.kind == "none":
            return False
        if v.kind in ("func", "inst", "mod", "class", "locals"):
            return True
        if v.known and v.kind in ("num", "str"):
            return bool(v.const)
        if v.kind == "tuple" and isinstance(v.items, tuple):
            return bool(v.items)
        if v.kind == "list":
            it = self.items_of(st, v)
            if it is not None:
                return bool(it)
        if v.kind == "num" and v.term is not None:
            f = self.fact(st, v.term)
            if f is not None:
                return f
            f = self.rng_truth(st, v)
            if f is not None:
                return f
        return None

    def rng_truth(self, st, v):
        cmpi = v.extra.get("cmp") if isinstance(v.extra, dict) else None
        if cmpi:
            op, a, b = cmpi
            ra, rb = self.rng(st, a), self.rng(st, b)
            if ra and rb:
                if op == "lt":
                    if ra[1] < rb[0]:
                        return True
                    if ra[0] >= rb[1]:
                        return False
                if op == "le":
                    if ra[1] <= rb[0]:
                        return True
                    if ra[0] > rb[1]:
                        return False
                if op == "eq" and (ra[1] < rb[0] or ra[0] > rb[1]):
                    return False
        elif v.dt != "b":
            r = self.rng(st, v)
            if r and (r[0] > 0 or r[1] < 0):
                return True
        if isinstance(v.extra, dict) and "not" in v.extra:
            q = self.truth(st, v.extra["not"])
            return None if q is None else not q
        return None

    def branch(self, st, v, node):
        """Returns (state if true or None, state if false or None)."""
        t = self.truth(st, v)
        if t is not None:
            self.emit("branch", st, node, v=v, pol=t, forced=True)
            return (st, None) if t else (None, st)
        a, b = st, st.copy()
        if v.kind in ("num", "arr") and v.term is not None:
            self.assume(a, v.term, True)
            self.assume(b, v.term, False)
        self.refine(a, v, True)
        self.refine(b, v, False)
        d = v.deps
        a.pc = a.pc | d
        b.pc = b.pc | d
        self.emit("branch", a, node, v=v, pol=True, forced=False)
        self.emit("branch", b, node, v=v, pol=False, forced=False)
        return a, b

    def refine(self, st, v, pol):
        if not isinstance(v.extra, dict):
            return
        if "not" in v.extra:
            return self.refine(st, v.extra["not"], not pol)
        cmpi = v.extra.get("cmp")
        if not cmpi:
            return
        op, a, b = cmpi
        if op == "lt":
            if pol:
                self._le(st, a, b, True)
            else:
                self._le(st, b, a, False)
        elif op == "le":
            if pol:
                self._le(st, a, b, False)
            else:
                self._le(st, b, a, True)
        elif op == "eq" and pol:
            self._le(st, a, b, False)
            self._le(st, b, a, False)
        elif op == "eq" and not pol:
            # an integer known to be >= k and different from k is >= k + 1
            for x, y in ((a, b), (b, a)):
                rx, ry = self.rng(st, x), self.rng(st, y)
                if rx and ry and ry[0] == ry[1] and x.term is not None and x.dt == "i":
                    if rx[0] == ry[0]:
                        st.rngs[x.term] = (rx[0] + 1, rx[1])

    def _le(self, st, a, b, strict):
        ra, rb = self.rng(st, a), self.rng(st, b)
        inta = a.dt == "i" or a.dt == "n"
        intb = b.dt == "i" or b.dt == "n"
        if rb is not None and a.term is not None and not T.is_const(a.term):
            hi = rb[1]
            if strict and inta and intb and hi not in (INF, -INF):
                hi = hi - 1
            lo0, hi0 = ra if ra else (-INF, INF)
            st.rngs[a.term] = (lo0, min(hi0, hi))
        if ra is not None and b.term is not None and not T.is_const(b.term):
            lo = ra[0]
            if strict and inta and intb and lo not in (INF, -INF):
                lo = lo + 1
            lo0, hi0 = rb if rb else (-INF, INF)
            st.rngs[b.term] = (max(lo0, lo), hi0)

    # ------------------------------------------------------------------ expressions
    def ev_many(self, nodes, st):
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note("expression %s" % type(e).__name__, e)
            return [(st, vany())]
        return m(e, st)

    def e_Constant(self, e, st):
        c = e.value
        if c is None:
            return [(st, NONE)]
        if isinstance(c, bool):
            return [(st, vbool(c))]
        if isinstance(c, (int, float)):
            return [(st, vnum(c))]
        if isinstance(c, str):
            return [(st, vstr(c))]
        if c is Ellipsis:
            return [(st, V("ellipsis"))]
        return [(st, vany())]

    def e_JoinedStr(self, e, st):
        states = [(st, [])]
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                states = [(s2, ps + [x]) for s, ps in states for s2, x in self.ev(v.value, s)]
            else:
                states = [(s, ps + [vstr(v.value)]) for s, ps in states]
        res = []
        for s, ps in states:
            if all(p.kind == "str" and p.known for p in ps):
                res.append((s, vstr("".join(p.const for p in ps))))
            else:
                deps = frozenset().union(*[p.deps for p in ps]) if ps else NODEPS
                ts = [self.term_of(s, p) for p in ps]
                res.append((s, V("str", term=T.mk("concat", *ts), deps=deps)))
        return res

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_Name(self, e, st):
        v = self.lookup(e.id, st, e)
        if v is None:
            return []
        return [(st, v)]

    def lookup(self, name, st, node, silent=False):
        fid = st.stack[-1]
        f = fid
        while f is not None:
            fr = st.frames.get(f)
            if fr is not None and name in fr and name not in self._decl(self.fnode.get(f)):
                v = fr[name]
                if v.kind == "unbound":
                    if silent:
                        return None
                    self.emit("unbound", st, node, name=name, fid=f)
                    self.throw(st, vany(), node)
                    return None
                return v
            f = self.parents.get(f)
        m = self.fmods[fid]
        v = self.global_name(m, name, st)
        if v is not None:
            return v
        b = self.lib.builtin(name)
        if b is not None:
            return b
        if silent:
            return None
        self.emit("undefined", st, node, name=name)
        self.note("undefined name %s" % name, node)
        return vany()

    def global_name(self, m, name, st):
        n = m.bind.get(name)
        if n is None:
            sub = m.name + "." + name
            if m.path.endswith("__init__.py") and sub in self.prog.modules:
                return self.modval(sub)
            if name == "__file__":
                return V("str", term=T.sym("__file__:" + m.name))
            if name == "__name__":
                return vstr(m.name)
            if name == "__doc__":
                return V("str", term=T.sym("__doc__:" + m.name))
            return None
        if isinstance(n, ast.FunctionDef):
            k = ("g", id(n))
            v = self.fcache.get(k)
            if v is None:
                st0 = self._modstate(m)
                outs = self.make_func(n, st0, m, None)
                v = outs[0][1]
                self.fcache[k] = v
            return v
        if isinstance(n, ast.ClassDef):
            c = self.ccache.get(id(n))
            if c is None:
                c = self.ccache[id(n)] = RepoClass(n, m)
            return V("class", fn=c, term=T.mk("cls", m.name + "." + n.name))
        if isinstance(n, ast.Import):
            for a in n.names:
                if (a.asname or a.name.split(".")[0]) == name:
                    return self.modval(a.name if a.asname else a.name.split(".")[0])
        if isinstance(n, ast.ImportFrom):
            base = self.prog.resolve_import(m, n)
            for a in n.names:
                if (a.asname or a.name) == name:
                    if base == m.name and base + "." + a.name in self.prog.modules:
                        return self.modval(base + "." + a.name)
                    return self.attr_of_module(st, base, a.name, n)
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            st0 = self._modstate(m)
            r, ex = self.with_exc(lambda: self.ev(n.value, st0))
            if not r:
                return vany()
            s2, v = r[0]
            tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if not isinstance(tg, ast.Name):
                its = self.items_of(s2, v)
                if isinstance(tg, (ast.Tuple, ast.List)) and its is not None and len(its) == len(tg.elts):
                    for t, x in zip(tg.elts, its):
                        if isinstance(t, ast.Name) and t.id == name:
                            v = x
                            break
                else:
                    return vany()
            for o in self._reach(s2, v):
                if o in s2.heap and o not in st.heap:
                    st.heap[o] = s2.heap[o].copy()
            return v
        return vany()

    def _reach(self, st, v):
        seen, todo = set(), [v]
        while todo:
            x = todo.pop()
            for o in x.objs:
                if o in seen:
                    continue
                seen.add(o)
                c = st.heap.get(o)
                if c is not None:
                    todo += list(c.items.values()) if isinstance(c.items, dict) else list(c.items or [])
                    if c.attrs:
                        todo += list(c.attrs.values())
                    if c.elem is not None:
                        todo.append(c.elem)
            if isinstance(x.items, tuple):
                todo += list(x.items)
        return seen

    def _modstate(self, m):
        s = State()
        fid = "mod:" + m.name
        s.stack = (fid,)
        s.frames[fid] = {}
        self.fmods[fid] = m
        self.parents.setdefault(fid, None)
        return s

    def attr_of_module(self, st, modname, name, node):
        """Value of <module>.<name>; modname may be a repo module or an external one."""
        m = self.prog.modules.get(modname)
        if m is not None:
            sub = modname + "." + name
            if name in m.bind:
                v = self.global_name(m, name, st)
                if v is not None:
                    return v
            if sub in self.prog.modules:
                return self.modval(sub)
            self.emit("missing_attr", st, node, base=modname, name=name)
            return vany()
        return self.lib.ext_attr(self, st, modname, name, node)

    def e_Attribute(self, e, st):
        res = []
        for st2, b in self.ev(e.value, st):
            for st3, v in self.getattr(st2, b, e.attr, e):
                if b.kind == "any" and v.kind == "func" and isinstance(v.fn, LibMeth) and v.fn.recv is b:
                    # an attribute of an unknown object: only where it is called is it known to be a function
                    p = getattr(e, "_parent", None)
                    if isinstance(p, (ast.Subscript, ast.BinOp, ast.UnaryOp, ast.Compare, ast.For)) or isinstance(p, ast.Attribute):
                        v = V("any", term=T.mk("attr", b.term, T.const(e.attr)) if b.term is not None else None, deps=v.deps)
                res.append((st3, v))
        return res

    def getattr(self, st, b, name, node):
        if b.kind == "mod":
            return [(st, self.attr_of_module(st, b.const, name, node))]
        if b.kind == "inst":
            return self.inst_attr(st, b, name, node)
        if b.kind == "class":
            c = b.fn
            if isinstance(c, RepoClass):
                mem = c.members.get(name)
                if isinstance(mem, ast.FunctionDef):
                    return [(st, self.method_func(c, mem, st))]
                if mem is not None:
                    return self.ev(mem, st)
                if name == "__name__":
                    return [(st, vstr(c.name))]
            return [(st, vany())]
        if b.kind == "func" and isinstance(b.fn, RepoFunc):
            if name == "__name__":
                return [(st, vstr(b.fn.name))]
            return [(st, vany())]
        if b.kind == "func" and isinstance(b.extra, dict) and name in b.extra:
            return [(st, b.extra[name])]
        return self.lib.value_attr(self, st, b, name, node)

    def method_func(self, c, mem, st):
        k = ("m", id(mem))
        v = self.fcache.get(k)
        if v is None:
            st0 = self._modstate(c.module)
            v = self.make_func(mem, st0, c.module, None)[0][1]
            if isinstance(v.fn, RepoFunc):
                v.fn.cls = c
            self.fcache[k] = v
        return v

    def class_member(self, c, name):
        mem = c.members.get(name)
        if mem is not None:
            return c, mem
        for b in c.node.bases:
            v = None
            if isinstance(b, ast.Name):
                n = c.module.bind.get(b.id)
                if isinstance(n, ast.ClassDef):
                    bc = self.ccache.get(id(n))
                    if bc is None:
                        bc = self.ccache[id(n)] = RepoClass(n, c.module)
                    r = self.class_member(bc, name)
                    if r is not None:
                        return r
                elif isinstance(n, ast.ImportFrom):
                    return ("?", None)
            if isinstance(b, ast.Attribute):
                return ("?", None)
        return None

    def inst_attr(self, st, b, name, node):
        if len(b.objs) != 1:
            return [(st, vany())]
        (o,) = b.objs
        cell = st.heap.get(o)
        if cell is None:
            return [(st, vany())]
        if cell.attrs is not None and name in cell.attrs and cell.attrs[name].kind != "unbound":
            return [(st, cell.attrs[name])]
        c = cell.cls
        if isinstance(c, RepoClass):
            r = self.class_member(c, name)
            if r is not None:
                cc, mem = r
                if cc == "?":
                    return [(st, vany())]
                if isinstance(mem, ast.FunctionDef):
                    f = self.method_func(cc, mem, st)
                    if not isinstance(f.fn, RepoFunc):
                        return [(st, vany())]
                    decos = f.fn.decorators
                    if "property" in decos or "cached_property" in decos or any(d.endswith("cached_property") for d in decos):
                        return self.call_value(st, V("func", fn=Bound(f.fn, b)), [], {}, node)
                    if "staticmethod" in decos:
                        return [(st, f)]
                    if "classmethod" in decos:
                        return [(st, V("func", fn=Bound(f.fn, V("class", fn=c))))]
                    return [(st, self._bound(f.fn, b))]
                return self.ev_in_module(mem, st, cc.module)
            if name == "__class__":
                return [(st, V("class", fn=c))]
            if name == "__dict__":
                return [(st, V("any", extra={"dict_of": b}, deps=b.deps))]
            if "__getattr__" not in c.members:
                self.emit("missing_attr", st, node, base=c.module.name + "." + c.name + " instance", name=name)
            return [(st, vany())]
        return [(st, vany())]

    def _bound(self, fn, b):
        k = ("b", id(fn), b.key())
        v = self.fcache.get(k)
        if v is None:
            v = V("func", fn=Bound(fn, b), term=T.mk("bound", fn.name, ",".join(sorted(b.objs))))
            self.fcache[k] = v
        return v

    def ev_in_module(self, expr, st, module):
        s0 = self._modstate(module)
        r = self.ev(expr, s0)
        if not r:
            return [(st, vany())]
        return [(st, r[0][1])]

    def e_BinOp(self, e, st):
        res = []
        op = type(e.op).__name__
        for st2, (a, b) in self.ev_many([e.left, e.right], st):
            res += self.lib.binop(self, st2, op, a, b, e)
        return res

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            res = []
            for st2, v in self.ev(e.operand, st):
                t = self.truth(st2, v)
                if t is not None:
                    res.append((st2, vbool(not t, v.deps)))
                else:
                    res.append((st2, V("num", term=T.mk("not", v.term) if v.term is not None else None, unit=ONE, dt="b",
                                       deps=v.deps, extra={"not": v})))
            return res
        res = []
        op = type(e.op).__name__
        for st2, v in self.ev(e.operand, st):
            res += self.lib.unop(self, st2, op, v, e)
        return res

    def e_BoolOp(self, e, st):
        # value context: fork on truthiness, keep operand values
        res = []
        cur = [st]
        is_and = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            nxt = []
            for s in cur:
                for s2, v in self.ev(x, s):
                    if i == len(e.values) - 1:
                        if v.kind == "num" and v.dt == "b" and not v.known and v.term is not None:
                            a, b = self.branch(s2, v, x)
                            if a is not None:
                                res.append((a, vbool(True, v.deps)))
                            if b is not None:
                                res.append((b, vbool(False, v.deps)))
                        else:
                            res.append((s2, v))
                        continue
                    a, b = self.branch(s2, v, x)
                    go, stop = (a, b) if is_and else (b, a)
                    if stop is not None:
                        if v.kind == "num" and v.dt == "b":
                            res.append((stop, vbool(not is_and, v.deps)))
                        else:
                            res.append((stop, v))
                    if go is not None:
                        nxt.append(go)
            cur = nxt
        return res

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            res = []
            for st2, (a, b) in self.ev_many([e.left, e.comparators[0]], st):
                res += self.lib.compare(self, st2, type(e.ops[0]).__name__, a, b, e)
            return res
        # chained: a < b < c  ->  and
        parts = []
        l = e.left
        for op, r in zip(e.ops, e.comparators):
            c = ast.Compare(left=l, ops=[op], comparators=[r])
            ast.copy_location(c, r)
            c._parent = getattr(e, "_parent", None)
            parts.append(c)
            l = r
        b = ast.BoolOp(op=ast.And(), values=parts)
        ast.copy_location(b, e)
        b._parent = getattr(e, "_parent", None)
        return self.e_BoolOp(b, st)

    def e_IfExp(self, e, st):
        t, f = self.branch_expr(e.test, [st])
        res = []
        for s in t:
            res += self.ev(e.body, s)
        for s in f:
            res += self.ev(e.orelse, s)
        return res

    def e_Tuple(self, e, st):
        return self._seq(e, st, "tuple")

    def e_List(self, e, st):
        return self._seq(e, st, "list")

    def e_Set(self, e, st):
        return self._seq(e, st, "set")

    def _seq(self, e, st, kind):
        res = []
        for st2, vs in self.ev_many([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st):
            items, ok = [], True
            for x, v in zip(e.elts, vs):
                if isinstance(x, ast.Starred):
                    its = self.items_of(st2, v)
                    if its is None:
                        ok = False
                    else:
                        items += list(its)
                else:
                    items.append(v)
            deps = frozenset().union(*[v.deps for v in vs]) if vs else NODEPS
            if kind == "list":
                o = self.alloc(st2, e, "list", Cell("list", items=items if ok else None, elem=None if ok else vany(deps)))
                res.append((st2, V("list", objs=frozenset([o]), deps=deps)))
            else:
                res.append((st2, V(kind, items=tuple(items) if ok else None, deps=deps)))
        return res

    def e_Dict(self, e, st):
        res = []
        ks = [k for k in e.keys]
        for st2, vs in self.ev_many([k for k in ks if k is not None] + e.values, st):
            nk = len([k for k in ks if k is not None])
            keys, vals = vs[:nk], vs[nk:]
            items = {}
            ok = True
            ki = 0
            for k, v in zip(ks, vals):
                if k is None:
                    ok = False
                    continue
                items[self.term_of(st2, keys[ki])] = v
                ki += 1
            deps = frozenset().union(*[v.deps for v in vs]) if vs else NODEPS
            o = self.alloc(st2, e, "dict", Cell("dict", items=items, elem=None if ok else vany(deps), extra={"open": not ok}))
            res.append((st2, V("dict", objs=frozenset([o]), deps=deps)))
        return res

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Slice(self, e, st):
        parts = [e.lower, e.upper, e.step]
        res = []
        for st2, vs in self.ev_many([p for p in parts if p is not None], st):
            it = iter(vs)
            items = tuple(next(it) if p is not None else NONE for p in parts)
            deps = frozenset().union(*[v.deps for v in vs]) if vs else NODEPS
            res.append((st2, V("slice", items=items, deps=deps)))
        return res

    def e_Subscript(self, e, st):
        res = []
        for st2, (b, i) in self.ev_many([e.value, e.slice], st):
            res += self.lib.load_subscript(self, st2, b, i, e)
        return res

    def e_Lambda(self, e, st):
        return self.make_func(e, st, self.fmods[st.stack[-1]], st.stack[-1])

    def e_NamedExpr(self, e, st):
        res = []
        for st2, v in self.ev(e.value, st):
            for st3 in self.bind_name(st2, e.target.id, v, e):
                res.append((st3, v))
        return res

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def _comp(self, e, st, elts):
        """Comprehensions: elements evaluated once per (abstract) element; returns [(st, [V per elt] or items)]."""
        fid0 = st.stack[-1]
        fid = "%s/c%s.%s" % (fid0, e.lineno, e.col_offset)
        self.parents[fid] = fid0
        self.fmods[fid] = self.fmods[fid0]
        self.fnode[fid] = None
        st.frames[fid] = {}
        st.stack = st.stack + (fid,)
        states = [(st, True)]
        unrolled = None
        gen = e.generators
        pc0 = st.pc
        if len(gen) == 1 and not gen[0].is_async:
            outs = []
            done = True
            for s, itv in self.ev(gen[0].iter, st):
                items = self.items_of(s, itv)
                if items is None or len(items) > 16:
                    done = False
                    outs.append((s, itv, None))
                else:
                    outs.append((s, itv, items))
            res = []
            for s, itv, items in outs:
                if items is not None:
                    cur = [(s, [])]
                    for x in items:
                        nxt = []
                        for s2, acc in cur:
                            for s3 in self.assign(gen[0].target, x, s2, e):
                                t = [s3]
                                skip = []
                                for cnd in gen[0].ifs:
                                    t, f = self.branch_expr(cnd, t)
                                    skip += f
                                for s4 in t:
                                    for s5, vs in self.ev_many(elts, s4):
                                        nxt.append((s5, acc + [vs]))
                                for s4 in skip:
                                    nxt.append((s4, acc))
                        cur = nxt[:64]
                    for s2, acc in cur:
                        res.append((s2, acc, True))
                else:
                    res += self._comp_abs(e, s, [(gen[0], itv)], elts)
        else:
            res = self._comp_abs(e, st, [(g, None) for g in gen], elts)
        for s, _, _ in res:
            s.stack = s.stack[:-1]
            s.frames.pop(fid, None)
        return res

    def _comp_abs(self, e, st, gens, elts):
        lid = "%s:K%s.%s" % (st.stack[-1], e.lineno, e.col_offset)
        self.loops.append(lid)
        cur = [st]
        idep = NODEPS
        for g, itv in gens:
            nxt = []
            for s in cur:
                for s2, iv in (self.ev(g.iter, s) if itv is None else [(s, itv)]):
                    self.emit("iter_start", s2, e, lid=lid, itv=iv)
                    idep = idep | iv.deps
                    for s3, x in self.lib.iter_elem(self, s2, iv, e, lid):
                        for s4 in self.assign(g.target, x, s3, e):
                            t = [s4]
                            for cnd in g.ifs:
                                t, f = self.branch_expr(cnd, t)
                            nxt += t
            cur = self.merge(nxt, lid)
        res = []
        for s in cur:
            for s2, vs in self.ev_many(elts, s):
                res.append((s2, [[v.r(deps=v.deps | idep) for v in vs]], False))
        self.loops.pop()
        # age: element values belong to "some iteration"
        return res

    def e_ListComp(self, e, st):
        res = []
        for s, acc, exact in self._comp(e, st, [e.elt]):
            deps = frozenset().union(*[v.deps for vs in acc for v in vs]) if acc else NODEPS
            if exact:
                o = self.alloc(s, e, "list", Cell("list", items=[vs[0] for vs in acc]))
            else:
                o = self.alloc(s, e, "list", Cell("list", items=None, elem=acc[0][0] if acc else None))
            res.append((s, V("list", objs=frozenset([o]), deps=deps)))
        return res

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        return [(s, V("set", items=tuple(vs[0] for vs in acc) if ex else None)) for s, acc, ex in self._comp(e, st, [e.elt])]

    def e_DictComp(self, e, st):
        res = []
        for s, acc, exact in self._comp(e, st, [e.key, e.value]):
            items = {self.term_of(s, vs[0]): vs[1] for vs in acc} if exact else {}
            o = self.alloc(s, e, "dict", Cell("dict", items=items, elem=None if exact else (acc[0][1] if acc else None), extra={"open": not exact}))
            res.append((s, V("dict", objs=frozenset([o]))))
        return res

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        res = []
        nodes = [e.func] + [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        for st2, vs in self.ev_many(nodes, st):
            f = vs[0]
            args = []
            for a, v in zip(e.args, vs[1:1 + len(e.args)]):
                if isinstance(a, ast.Starred):
                    its = self.items_of(st2, v)
                    if its is not None:
                        args += list(its)
                    else:
                        args.append(V("star", extra={"v": v}, deps=v.deps, term=v.term))
                else:
                    args.append(v)
            kwargs = {}
            for k, v in zip(e.keywords, vs[1 + len(e.args):]):
                if k.arg is None:
                    if v.kind == "dict" and len(v.objs) == 1:
                        c = st2.heap.get(next(iter(v.objs)))
                        if c is not None and isinstance(c.items, dict):
                            for kk, x in c.items.items():
                                if isinstance(kk, T.Term) and kk.op == "const" and isinstance(kk.args[0], str):
                                    kwargs[kk.args[0]] = x
                            if (c.extra or {}).get("open"):
                                kwargs["**"] = v
                            continue
                    kwargs["**"] = v
                else:
                    kwargs[k.arg] = v
            # literal arguments may carry any unit (their meaning is the parameter's)
            res += self.call_value(st2, f, args, kwargs, e)
        return res

    def call_value(self, st, f, args, kwargs, node):
        fn = f.fn
        if f.kind == "func":
            if isinstance(fn, RepoFunc):
                return self.call_repo(st, fn, args, kwargs, node)
            if isinstance(fn, Bound):
                if isinstance(fn.fn, RepoFunc):
                    return self.call_repo(st, fn.fn, [fn.self_v] + args, kwargs, node)
                return self.call_value(st, V("func", fn=fn.fn), [fn.self_v] + args, kwargs, node)
            if isinstance(fn, UserFn):
                return fn.handler(self, st, args, kwargs, node)
            if isinstance(fn, Partial):
                kw = dict(fn.kwargs)
                kw.update(kwargs)
                return self.call_value(st, fn.fn, list(fn.args) + args, kw, node)
            if isinstance(fn, LibMeth):
                return self.lib.call_method(self, st, fn.recv, fn.name, args, kwargs, node)
            if isinstance(fn, tuple) and fn[0] == "lib":
                return self.lib.call_lib(self, st, fn[1], args, kwargs, node)
        if f.kind == "class":
            return self.instantiate(st, f, args, kwargs, node)
        if f.kind == "inst":
            (o,) = f.objs if len(f.objs) == 1 else (None,)
            cell = st.heap.get(o) if o else None
            if cell is not None and isinstance(cell.cls, RepoClass):
                r = self.class_member(cell.cls, "__call__")
                if r is not None and r[0] != "?":
                    m = self.method_func(r[0], r[1], st)
                    return self.call_repo(st, m.fn, [f] + args, kwargs, node)
        if f.kind in ("none", "num", "str", "tuple", "list", "arr"):
            self.emit("call_noncallable", st, node, f=f)
            self.throw(st, vany(), node)
            return []
        self.emit("unknown_call", st, node, f=f, args=args, kwargs=kwargs)
        self.note("call of unknown value", node)
        return [(st, vany(self.deps_of(st, [f] + args + list(kwargs.values()))))]

    def deps_of(self, st, vs):
        d = NODEPS
        for v in vs:
            d = d | v.deps
            if v.objs:
                d = d | self.c(st, v).deps
            if isinstance(v.items, tuple):
                d = d | self.deps_of(st, v.items)
        return d

    def instantiate(self, st, f, args, kwargs, node):
        c = f.fn
        if not isinstance(c, RepoClass):
            return self.lib.call_lib(self, st, str(c), args, kwargs, node)
        oid = self.alloc(st, node, "obj." + c.name, Cell("inst", attrs={}, cls=c))
        ref = V("inst", objs=frozenset([oid]))
        r = self.class_member(c, "__init__")
        if r is None or r[0] == "?":
            if any(isinstance(s, ast.AnnAssign) for s in c.node.body) and c.node.decorator_list:
                # dataclass-like: fields in order
                names = [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign)]
                for nme, v in zip(names, args):
                    st.heap[oid].attrs[nme] = v
                for k, v in kwargs.items():
                    st.heap[oid].attrs[k] = v
            return [(st, ref)]
        m = self.method_func(r[0], r[1], st)
        if not isinstance(m.fn, RepoFunc):
            return [(st, ref)]
        return [(s2, ref) for s2, _ in self.call_repo(st, m.fn, [ref] + args, kwargs, node)]

    def call_repo(self, st, fn, args, kwargs, node):
        node_f = fn.node
        key = fn.module.name + "." + fn.name
        if self.recording:
            self.fns_seen[key] = self.fns_seen.get(key, 0) + 1
        ov = self.extra_models.get(key)
        if ov is not None:
            r = ov(self, st, args, kwargs, node, fn)
            if r is not None:
                return r
        if sum(1 for x in self.callstack if x is node_f) >= 2 or len(self.callstack) > 40:
            self.emit("recursion", st, node, fn=fn)
            return [(st, vany(self.deps_of(st, args)))]
        caller = st.stack[-1] if st.stack else "top"
        fid = "%s/%s@%s.%s" % (caller, fn.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        if len(fid) > 400:
            import hashlib
            fid = "~" + hashlib.md5(fid.encode()).hexdigest()[:12] + "/" + fn.name
        fr, err = self.bind_args(st, fn, args, kwargs, node)
        if fr is None:
            self.emit("bad_call", st, node, fn=fn, err=err)
            self.throw(st, vany(), node)
            return []
        if isinstance(node_f, ast.Lambda):
            body = [ast.copy_location(ast.Return(value=node_f.body), node_f.body)]
            body[0]._parent = node_f
        else:
            body = node_f.body
            for n in self._locals(node_f):
                if n not in fr and n not in self._decl(node_f):
                    fr[n] = UNBOUND
        if not isinstance(node_f, ast.Lambda) and _is_generator(node_f):
            self.note("generator function", node_f)
            return [(st, vany())]
        self.parents[fid] = fn.closure
        self.fmods[fid] = fn.module
        self.fnode[fid] = node_f
        st.frames[fid] = fr
        st.stack = st.stack + (fid,)
        self.callstack.append(node_f)
        self.emit("enter", st, node, fn=fn, fid=fid)
        o = self.exec_block(body, [st])
        self.callstack.pop()
        rets = list(o.ret)
        rets += [(s, NONE) for s in o.nxt]
        keep = self._keeps_frame(node_f)
        outs = []
        for s, v in rets:
            self.emit("leave", s, node, fn=fn, fid=fid, ret=v, top=not self.callstack)
            s.frames[fid]["$ret"] = v
            outs.append(s)
        # pop frame before joining so its locals do not split the states
        ex = []
        for s in outs:
            s.stack = s.stack[:-1]
        for s, v in o.exc:
            s.stack = tuple(x for x in s.stack if x != fid and not x.startswith(fid + "/"))
            if not s.stack or True:
                # stack of the raising state goes back to the caller's
                i = caller
            s.stack = _cut(s.stack, caller)
            if not keep:
                s.frames.pop(fid, None)
            self.throw(s, v, node)
        groups = {}
        for s in outs:
            v = s.frames[fid]["$ret"]
            groups.setdefault(_retkey(v), []).append(s)
        res = []
        for gk in groups:
            for s in self.merge(groups[gk], fid + ":R"):
                v = s.frames[fid].pop("$ret")
                if not keep:
                    s.frames.pop(fid, None)
                res.append((s, v))
        return res

    def _keeps_frame(self, node):
        k = self._keepf.get(id(node))
        if k is None:
            k = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(node) if n is not node)
            self._keepf[id(node)] = k
        return k

    def bind_args(self, st, fn, args, kwargs, node):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        fr = {}
        args = list(args)
        kwargs = dict(kwargs)
        star = None
        if args and args[-1].kind == "star":
            star = args.pop()
        if any(x.kind == "star" for x in args):
            self.note("star argument in the middle", node)
            args = [x for x in args if x.kind != "star"]
        dd = kwargs.pop("**", None)
        for n, v in zip(pos, args):
            fr[n] = v
        extra = args[len(pos):]
        if extra and a.vararg is None:
            return None, "takes %d positional arguments but %d were given" % (len(pos), len(args))
        if a.vararg is not None:
            if star is not None:
                fr[a.vararg.arg] = star.extra["v"] if not extra else V("tuple", deps=star.deps)
            else:
                fr[a.vararg.arg] = V("tuple", items=tuple(extra))
        rest = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                if k in fr:
                    return None, "got multiple values for argument '%s'" % k
                fr[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                return None, "got an unexpected keyword argument '%s'" % k
        if a.kwarg is not None:
            o = self.alloc(st, node, "kw", Cell("dict", items={T.const(k): v for k, v in rest.items()}, extra={"open": dd is not None}))
            fr[a.kwarg.arg] = V("dict", objs=frozenset([o]))
        nd = len(fn.defaults)
        for i, n in enumerate(pos):
            if n not in fr:
                j = i - (len(pos) - nd)
                if j >= 0:
                    fr[n] = self.default_value(fn, n, fn.defaults[j], st)
                elif star is not None or dd is not None:
                    fr[n] = vany(star.deps if star is not None else NODEPS)
                else:
                    return None, "missing required argument '%s'" % n
        for x in a.kwonlyargs:
            if x.arg not in fr:
                if x.arg in fn.kwdefaults:
                    fr[x.arg] = self.default_value(fn, x.arg, fn.kwdefaults[x.arg], st)
                elif dd is not None:
                    fr[x.arg] = vany()
                else:
                    return None, "missing required keyword argument '%s'" % x.arg
        return fr, None

    def default_value(self, fn, name, v, st):
        if v.kind == "num" and v.known and not isinstance(v.const, bool) and v.unit == ONE:
            fid = st.stack[-1] if st.stack else "top"
            return v.r(unit=(("?def:%s.%s:%s" % (fn.name, name, fid), 1),))
        return v

    # ------------------------------------------------------------------ entry points
    def start(self, module):
        st = State()
        fid = "entry"
        st.stack = (fid,)
        st.frames[fid] = {}
        self.fmods[fid] = module
        self.parents[fid] = None
        self.fnode[fid] = None
        self.excs.append([])
        return st

    def func(self, qual):
        """RepoFunc value of a module-level function."""
        m, cls, n = self.prog.find(qual)
        if cls is not None:
            c = self.ccache.get(id(cls))
            if c is None:
                c = self.ccache[id(cls)] = RepoClass(cls, m)
            r = self.class_member(c, n)
            if r is None:
                raise AnalysisError("anchor %s not found" % qual)
            return self.method_func(r[0], r[1], None)
        st = self._modstate(m)
        v = self.global_name(m, n.name if isinstance(n, (ast.FunctionDef, ast.ClassDef)) else qual.split(".")[-1], st)
        if v is None or v.kind not in ("func", "class"):
            raise AnalysisError("anchor %s is not a function or class" % qual)
        return v


def _cut(stack, caller):
    if caller in stack:
        return stack[: stack.index(caller) + 1]
    return stack


def _retkey(v):
    if v.kind == "none":
        return "none"
    if v.kind == "num" and v.known and isinstance(v.const, bool):
        return ("b", v.const)
    if v.kind == "str" and v.known:
        return ("s", v.const)
    if v.kind == "tuple" and isinstance(v.items, tuple):
        return ("t",) + tuple(_retkey(i) if i.kind in ("none",) else i.kind for i in v.items)
    if v.kind == "inst":
        return ("i", tuple(sorted(v.objs)))
    return v.kind


def _pcdelta(pc0, t, f):
    d = NODEPS
    for x in t + f:
        d = d | (x.pc - pc0)
    return d


def _wide(v, joinid, slot, loops):
    t = T.mk("phi", "%s/w:%s" % (joinid, slot), loops=tuple(loops)) if v.term is not None else None
    rng = None
    return v.r(term=t, rng=rng, const=NOCONST if v.kind in ("num", "str") and not isinstance(v.const, bool) else v.const)


def _map_terms(v, f):
    if isinstance(v, T.Term):
        return f(v)
    if isinstance(v, tuple):
        return tuple(_map_terms(x, f) for x in v)
    if isinstance(v, frozenset):
        return frozenset(_map_terms(x, f) for x in v)
    return v


def _allargs(fn):
    a = fn.args
    r = a.posonlyargs + a.args + a.kwonlyargs
    if a.vararg:
        r.append(a.vararg)
    if a.kwarg:
        r.append(a.kwarg)
    return r


def _load(t):
    return ast.Name(id=t.id, ctx=ast.Load())


def _is_generator(fn):
    r = getattr(fn, "_isgen", None)
    if r is None:
        r = False
        todo = list(fn.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                continue
            todo += list(ast.iter_child_nodes(n))
        fn._isgen = r
    return r


def _has_loopctl(s):
    for n in ast.walk(s):
        if isinstance(n, (ast.Break, ast.Continue)):
            return True
    return False

"""Abstract file system for the dataset loaders.

The file system is part of the analysis state: st.ts["fs"] maps path strings (with holes for what is not known) to the set of
contents the file may have.  Library calls that touch files are interpreted over it; every change also yields the states a crash at
that point can leave behind, from which the loader is analysed again."""
import ast
import re
from . import terms as T, lint, lib
from .values import V, vstr, vbool, vnum, vany, NONE, NOCONST, Cell
from .libfn import one, tm, cont, sp_new
from .spec import NODE

ABSENT = T.mk("absent")
DIR = T.mk("dir")
REST, CUR, DONE = "<*>", "<cur>", "<done>"
HOLES = (REST, CUR, DONE)
READERS = {"sklearn.datasets.load_svmlight_file"}
HASHES = ("md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "blake2s", "new")
OKFILTER = ("data", "tar")


class Lost(Exception):
    pass


def part(c):
    return T.mk("trunc", c) if c is not None else T.mk("trunc")


def is_part(c):
    return T.contains(c, lambda t: t.op in ("trunc", "unfl"))


def urls(c):
    return [t for t in T.subterms(c) if t.op == "url"] if isinstance(c, T.Term) else []


def plain(t, cache=None):
    """A content without the verification status of the download it comes from."""
    if not any(s.op in ("url", "csr", "npyof") for s in T.subterms(t)):
        return t
    if t.op == "url":
        return T.mk("url", t.args[0])
    a = [plain(x) if isinstance(x, T.Term) else x for x in t.args]
    if t.op == "npyof" and isinstance(a[0], T.Term) and a[0].op == "npy":
        return a[0].args[0]
    if t.op == "csr" and all(x.op == "part" and len(x.args) == 2 for x in a) and [x.args[0].args[0] for x in a] == ["data", "indices", "indptr"] \
            and a[0].args[1] is a[1].args[1] and a[1].args[1] is a[2].args[1]:
        return a[0].args[1]
    r = T.mk(t.op, *a)
    if t in T.KIND:
        T.KIND.setdefault(r, T.KIND[t])
    return r


def member_name(t):
    return T.contains(t, lambda x: x.op == "memb")


def pathstr(E, st, v):
    """The path a value denotes, or None."""
    if v.kind == "str" and v.known:
        return v.const
    if isinstance(v.extra, tuple) and v.extra and v.extra[0] == "path":
        return v.extra[1]
    return path_of_term(tm(E, st, v))


def path_of_term(t):
    if t.op == "const":
        return t.args[0] if isinstance(t.args[0], str) else None
    if t.op in ("path", "concat"):
        ps = [path_of_term(a) for a in t.args]
        if any(p is None for p in ps):
            return None
        return ("/" if t.op == "path" else "").join(ps)
    if member_name(t):
        if t.op == "meth" and t.args[0].args[0] in ("name", "path"):
            return CUR
        if t.op == "memb" and t.args[-1].op == "const":
            return CUR
        if t.op == "call" and "basename" in str(t.args[0]) or t.op == "basename":
            return "<base>"
        return None
    if t.op in ("fresh", "unk", "phi", "loopvar"):
        return None
    return "<" + T.show(t, 5).replace("/", "|").replace("<", "(").replace(">", ")") + ">"


def norm(p):
    p = re.sub(r"/+", "/", p)
    return p[:-1] if len(p) > 1 and p.endswith("/") else p


def pattern(p):
    return re.compile("".join(".+" if x in HOLES else re.escape(x) for x in re.split("(%s)" % "|".join(map(re.escape, HOLES)), p)) + r"\Z")


class FS:
    """Operations on the file system of a state."""

    def __init__(self, client):
        self.p = client

    # ---- raw access
    def get(self, st):
        return dict(st.ts.get("fs", ()))

    def put(self, st, d):
        st.ts["fs"] = frozenset((k, v) for k, v in d.items() if v != frozenset([ABSENT]) or "<" in k or True)

    def lookup(self, st, path):
        """Contents the path may have."""
        d = self.get(st)
        path = norm(path)
        if path not in st.ts.get("_wr", ()) and not any(h in path for h in HOLES):
            self.p.read_path(path)
        elif CUR in path and path not in self.get(st):
            self.p.read_path(path.replace(CUR, REST))
        if path in d:
            return d[path]
        out = set()
        if path not in self.p.explicit and not any(h in path for h in HOLES):
            for q, c in d.items():
                if any(h in q for h in (REST, DONE)) and pattern(q).match(path):
                    h = next(x for x in (REST, DONE) if x in q)
                    for x in c:
                        out.add(T.mk("member", x.args[0], T.const(path)) if x.op == "member" else x)
        elif any(h in path for h in HOLES):
            h = next(x for x in HOLES if x in path)
            if h == CUR:
                for q, c in d.items():
                    if q == path.replace(CUR, REST):
                        out |= c
        if out and not any(DONE in q or REST in q for q in d):
            out.add(ABSENT)
        if not out or out == {ABSENT}:
            if any(k.startswith(path + "/") and c != frozenset([ABSENT]) and not any(h in k for h in HOLES) for k, c in d.items()):
                return frozenset([DIR])
        return frozenset(out) or frozenset([ABSENT])

    def set(self, st, path, contents, own=True):
        d = self.get(st)
        d[norm(path)] = frozenset(contents)
        self.put(st, d)
        if own:
            st.ts["_wr"] = frozenset(st.ts.get("_wr", frozenset())) | {norm(path)}
        if own and not any(h in path for h in HOLES) and contents != [ABSENT]:
            self.p.explicit.add(norm(path))

    def lose(self, st, why, node=None):
        st.ts["lost"] = True
        self.p.E.note("file system: " + why, node)

    def path(self, st, v, node):
        p = pathstr(self.p.E, st, v) if v is not None else None
        if p is None:
            self.lose(st, "unknown path", node)
            return None
        return norm(p)

    def unshadow(self, d, k):
        """All files of the pattern k were written: what was known of single ones is gone."""
        rx = pattern(k)
        for q in list(d):
            if q != k and not any(h in q for h in HOLES) and q not in self.p.explicit and rx.match(q) and all(z is ABSENT or z.op in ("member", "trunc") for z in d[q]):
                del d[q]

    # ---- statuses
    def status(self, st, u):
        s = dict(st.ts.get("ver", ())).get(u.args[0].args[0])
        if s is None and len(u.args) > 1:
            s = u.args[1].args[0]
        return s or "new"

    def setstatus(self, st, u, s):
        d = dict(st.ts.get("ver", ()))
        d[u.args[0].args[0]] = s
        st.ts["ver"] = frozenset(d.items())

    # ---- crash states
    def bake(self, st, d):
        """The file system as a later process finds it."""
        ver = dict(st.ts.get("ver", ()))

        def fix(c):
            if c.op == "url":
                s = ver.get(c.args[0].args[0]) or (c.args[1].args[0] if len(c.args) > 1 else "new")
                return T.mk("url", c.args[0], T.const("ok" if s == "ok" else "new"))
            if c.op == "unfl":
                return part(None)
            if c.op == "trunc":
                return part(None)
            a = [fix(x) if isinstance(x, T.Term) else x for x in c.args]
            return T.mk(c.op, *a)
        out = {}
        for k, c in d.items():
            if "<tmp" in k:
                continue
            cs = frozenset(fix(x) for x in c)
            h = next((x for x in HOLES if x in k), None)
            if h is not None:
                k2 = k.replace(h, REST)
                out[k2] = out.get(k2, frozenset() if h == REST else frozenset([ABSENT])) | cs
            elif cs != frozenset([ABSENT]) or k in self.p.matter:
                out[k] = cs
        moving = {k.replace(CUR, REST).replace(DONE, REST) for k in d if CUR in k or DONE in k}
        for k in moving:
            # single members seen earlier may or may not have been written again
            rx = pattern(k)
            for q in list(out):
                if q != k and not any(h in q for h in HOLES) and q not in self.p.explicit and rx.match(q) and all(z is ABSENT or z.op in ("member", "trunc") for z in out[q]):
                    out[k] = out[k] | frozenset(T.mk("member", z.args[0]) if z.op == "member" else z for z in out[q])
                    del out[q]
        return frozenset(out.items())

    def snapshot(self, st, node, d=None):
        if self.p.E.recording and not st.ts.get("lost"):
            self.p.snap(self.bake(st, self.get(st) if d is None else d), node)

    # ---- operations
    def change(self, st, node, path, final, atomic):
        """The file at path is replaced by `final`; unless atomic, a crash can leave part of it."""
        self.p.seen(st, "file change", node)
        self.snapshot(st, node)
        if not atomic:
            d = self.get(st)
            d[path] = frozenset(part(None) for c in final)
            self.snapshot(st, node, d)
        self.set(st, path, list(final))

    def parent(self, st, path, node):
        d = path.rsplit("/", 1)[0] if "/" in path else None
        if d is None or any(h in d for h in HOLES) or "<tmp" in path:
            return
        c = self.lookup(st, d)
        if c == frozenset([ABSENT]) and self.p.later and not self.known_dir(st, d):
            self.p.bad(st, node, "C33", "missing-directory", "writes to %s although the directory does not exist" % path)

    def known_dir(self, st, d):
        fs = self.get(st)
        return any(k == d or k.startswith(d + "/") for k in fs)

    def use(self, st, node, content, what):
        """A dataset file is parsed, unpacked or loaded."""
        p = self.p
        p.seen(st, "use of a file", node)
        for c in content if isinstance(content, (set, frozenset)) else [content]:
            if c is ABSENT:
                if p.guarded(st, node):
                    continue
                if p.later:
                    p.bad(st, node, "C33", "missing-file", "%s although an interrupted earlier call may have left the file missing" % what)
                elif content == frozenset([ABSENT]):
                    p.bad(st, node, "C23", "missing-file", "%s a file that was never written" % what)
            elif is_part(c):
                if p.later and T.contains(c, lambda t: t.op == "trunc"):
                    p.bad(st, node, "C33", "partial-file", "%s although an interrupted earlier call may have left only part of the file" % what)
                else:
                    p.bad(st, node, "C23", "unflushed", "%s before the file was completely written" % what)
            elif p.verifies:
                for u in urls(c):
                    s = self.status(st, u)
                    if s == "bad":
                        p.bad(st, node, "C22", "mismatch-used", "%s although the checksum of the download did not match" % what)
                    elif s == "new":
                        p.bad(st, node, "C22", "unverified", "%s before the checksum of the download was found equal" % what)


def model(client, E):
    """Install the file system model on an engine."""
    fs = FS(client)
    H = E.lib_hooks

    def hook(*names):
        def deco(f):
            def g(E, st, a, kw, node):
                if st.ts.get("lost"):
                    return None
                return f(E, st, a, kw, node)
            for n in names:
                H[n] = g
            return f
        return deco

    def nkey(node):
        return "%s:%s" % (getattr(node, "lineno", 0), getattr(node, "col_offset", 0))

    # ---- paths
    @hook("os.path.join")
    def _join(E, st, a, kw, node):
        ps = [pathstr(E, st, x) for x in a]
        if any(p is None for p in ps) or any(h in p for p in ps for h in HOLES):
            return None
        out = ""
        for p in ps:
            out = p if p.startswith("/") or not out else out.rstrip("/") + "/" + p
        return one(st, vstr(out, E.deps_of(st, a)))

    @hook("os.path.expanduser", "os.path.abspath", "os.path.realpath", "os.path.normpath")
    def _same(E, st, a, kw, node):
        if a[0].kind == "str" and a[0].known and a[0].const.startswith("~"):
            return one(st, vstr("<HOME>" + a[0].const[1:]))
        if tm(E, st, a[0]).op != "const" and not member_name(tm(E, st, a[0])):
            return one(st, a[0])
        if a[0].kind == "str" and a[0].known and "<" in a[0].const:
            return one(st, a[0])

    @hook("os.path.splitext")
    def _splitext(E, st, a, kw, node):
        if a[0].kind == "str" and a[0].known:
            import posixpath
            x, y = posixpath.splitext(a[0].const)
            return one(st, V("tuple", items=(vstr(x), vstr(y))))

    @hook("os.path.dirname")
    def _dirname(E, st, a, kw, node):
        if a[0].kind == "str" and a[0].known:
            return one(st, vstr(a[0].const.rsplit("/", 1)[0]))

    @hook("os.path.basename")
    def _basename(E, st, a, kw, node):
        if a[0].kind == "str" and a[0].known:
            return one(st, vstr(a[0].const.rsplit("/", 1)[-1]))
        if member_name(tm(E, st, a[0])):
            return one(st, V("str", term=T.mk("basename", tm(E, st, a[0]))))

    @hook("os.fspath", "builtins.str")
    def _fspath(E, st, a, kw, node):
        if len(a) == 1 and a[0].kind == "str":
            return one(st, a[0])

    # ---- questions
    @hook("os.path.exists", "os.path.isfile", "os.path.lexists", "os.path.isdir")
    def _exists(E, st, a, kw, node):
        p = fs.path(st, a[0], node)
        if p is None:
            return None
        client.seen(st, "existence test", node)
        client.tested.add(p)
        c = fs.lookup(st, p)
        if ABSENT not in c:
            return one(st, vbool(True))
        if c == frozenset([ABSENT]):
            if not client.later or not fs.known_dir(st, p):
                return one(st, vbool(False))
            return one(st, vbool(fs.known_dir(st, p) and any(k.startswith(p + "/") for k in fs.get(st))))
        t = T.mk("fsexists", T.const(p))
        T.KIND[t] = "s"
        return one(st, V("num", NOCONST, t, dt="b", rng=(0, 1)))

    def _items(E, st, v):
        its = E.items_of(st, v)
        return its

    @hook("numpy.all", "builtins.all")
    def _all(E, st, a, kw, node):
        its = _items(E, st, a[0])
        if its is None:
            return None
        if any(x.known and not x.const for x in its):
            return one(st, vbool(False))
        rest = [x for x in its if not x.known]
        if not rest:
            return one(st, vbool(True))
        t = T.mk("and", *[tm(E, st, x) for x in rest]) if len(rest) > 1 else tm(E, st, rest[0])
        T.KIND[t] = "s"
        return one(st, V("num", NOCONST, t, dt="b", rng=(0, 1)))

    @hook("numpy.any", "builtins.any")
    def _any(E, st, a, kw, node):
        its = _items(E, st, a[0])
        if its is None:
            return None
        if any(x.known and x.const for x in its):
            return one(st, vbool(True))
        rest = [x for x in its if not x.known]
        if not rest:
            return one(st, vbool(False))
        t = T.mk("or", *[tm(E, st, x) for x in rest]) if len(rest) > 1 else tm(E, st, rest[0])
        T.KIND[t] = "s"
        return one(st, V("num", NOCONST, t, dt="b", rng=(0, 1)))

    @hook("os.path.getsize", "os.stat", "os.listdir", "os.scandir", "glob.glob")
    def _stat(E, st, a, kw, node):
        return None

    # ---- directories
    @hook("os.makedirs", "os.mkdir")
    def _makedirs(E, st, a, kw, node):
        p = fs.path(st, a[0], node)
        if p is None:
            return None
        ok = kw.get("exist_ok", a[2] if len(a) > 2 else None)
        c = fs.lookup(st, p)
        if c != frozenset([ABSENT]) and not (ok is not None and not (ok.known and not ok.const)) and not client.guarded(st, node):
            if ABSENT not in c:
                client.bad(st, node, "C33" if client.later else "C23", "directory-exists",
                           "creating the directory fails because it is there already")
        client.seen(st, "file change", node)
        fs.snapshot(st, node)
        d = fs.get(st)
        q = p
        while q and "/" in q or q == p:
            if q not in d or d[q] == frozenset([ABSENT]):
                d[q] = frozenset([DIR])
            client.explicit.add(q)
            q = q.rsplit("/", 1)[0] if "/" in q else ""
        if q:
            d.setdefault(q, frozenset([DIR]))
        fs.put(st, d)
        return one(st, NONE)

    # ---- files as wholes
    @hook("os.remove", "os.unlink")
    def _remove(E, st, a, kw, node):
        p = fs.path(st, a[0], node)
        if p is None:
            return None
        c = fs.lookup(st, p)
        if c == frozenset([ABSENT]) and not client.guarded(st, node):
            client.bad(st, node, "C33" if client.later else "C23", "remove-missing", "removes a file that is not there")
        fs.change(st, node, p, [ABSENT], True)
        return one(st, NONE)

    @hook("os.replace", "os.rename", "shutil.move", "shutil.copy", "shutil.copyfile", "shutil.copy2", "os.link")
    def _replace(E, st, a, kw, node):
        s, d = fs.path(st, a[0], node), fs.path(st, a[1], node)
        if s is None or d is None:
            return None
        c = fs.lookup(st, s)
        cp = ast.unparse(node.func) if isinstance(node, ast.Call) else ""
        copies = any(x in cp for x in ("copy", "link"))
        guard_dest(E, st, d, node)
        fs.parent(st, d, node)
        if copies:
            fs.change(st, node, d, c, "link" in cp)
        else:
            fs.snapshot(st, node)
            fs.set(st, d, list(c))
            fs.set(st, s, [ABSENT])
        return one(st, NONE)

    def guard_dest(E, st, p, node):
        """A file whose name comes from an archive is written."""
        if CUR not in p:
            return
        client.seen(st, "archive member written", node)
        g = st.ts.get("guard", frozenset())
        if not ("free" in g or {"abs", "dotdot"} <= g):
            miss = sorted({"abs", "dotdot"} - g)
            client.bad(st, node, "C22", "escape", "an archive member is written under its own name without excluding %s"
                       % " and ".join({"abs": "absolute paths", "dotdot": "'..' components"}[m] for m in miss))

    # ---- downloads
    def download(E, st, u, node):
        t = T.mk("url", T.const(u), T.const("new"))
        d = dict(st.ts.get("ver", ()))
        d.pop(u, None)
        st.ts["ver"] = frozenset(d.items())
        st.facts = {k: v for k, v in st.facts.items() if not any(x.args[0].args[0] == u for x in urls(k))}
        client.urls.add(u)
        return t

    @hook("urllib.request.urlretrieve")
    def _retrieve(E, st, a, kw, node):
        u = a[0] if a else kw.get("url")
        us = u.const if u is not None and u.kind == "str" and u.known else None
        if us is None:
            us = path_of_term(tm(E, st, u))
        if us is None:
            fs.lose(st, "unknown url", node)
            return None
        dest = a[1] if len(a) > 1 else kw.get("filename")
        c = download(E, st, us, node)
        if dest is None or dest.kind == "none":
            p = "<tmp:%s>" % us
            fs.snapshot(st, node)
            fs.set(st, p, [c])
        else:
            p = fs.path(st, dest, node)
            if p is None:
                return None
            fs.parent(st, p, node)
            fs.change(st, node, p, [c], False)
        return one(st, V("tuple", items=(vstr(p), vany())))

    @hook("urllib.request.urlopen")
    def _urlopen(E, st, a, kw, node):
        us = a[0].const if a[0].kind == "str" and a[0].known else path_of_term(tm(E, st, a[0]))
        if us is None:
            fs.lose(st, "unknown url", node)
            return None
        return one(st, V("any", term=T.mk("stream", T.const(us), T.const(nkey(node))), extra=("rf", download(E, st, us, node), "")))

    # ---- open files
    def flush(st, paths):
        d = fs.get(st)
        op = st.ts.get("open", frozenset())
        eof = st.ts.get("eof", frozenset())
        for p in paths:
            c = d.get(p)
            if c is not None:
                out = []
                for x in c:
                    if x.op == "unfl":
                        out.append(x.args[0])
                    elif x.op == "trunc" and x.args and x.args[0] in eof:
                        out.append(x.args[0])
                    elif x.op == "trunc" and not x.args and len(eof) >= 1:
                        out.append(sorted(eof, key=lambda t: t.size)[0])
                    elif x.op == "trunc" and not x.args:
                        out.append(T.mk("empty"))
                    else:
                        out.append(x)
                d[p] = frozenset(out)
        fs.put(st, d)
        st.ts["open"] = frozenset(x for x in op if x[0] not in paths)

    def wopen(st, p, node):
        guard_dest(client.E, st, p, node)
        fs.parent(st, p, node)
        fs.change(st, node, p, [part(None)], True)
        st.ts["open"] = st.ts.get("open", frozenset()) | {(p, nkey(node), st.stack[-1] if st.stack else "")}

    @hook("builtins.open", "io.open")
    def _open(E, st, a, kw, node):
        m = a[1] if len(a) > 1 else kw.get("mode")
        mode = m.const if m is not None and m.known else ("r" if m is None else None)
        p = fs.path(st, a[0], node)
        if p is None or mode is None:
            return None
        if "r" in mode and "+" not in mode:
            c = fs.lookup(st, p)
            if ABSENT in c:
                fs.use(st, node, c & {ABSENT} if len(c) > 1 else c, "opens " + short(p))
            out = []
            for x in sorted(c - {ABSENT}, key=lambda t: T.show(t)):
                s = st.copy()
                if len(c) > 1:
                    fs.set(s, p, [x], False)
                out.append((s, V("any", term=T.mk("rfile", x, T.const(nkey(node))), extra=("rf", x, p))))
            return out
        if "w" in mode or "x" in mode:
            if "x" in mode:
                c = fs.lookup(st, p)
                if ABSENT not in c and not client.guarded(st, node):
                    client.bad(st, node, "C33" if client.later else "C23", "exists", "creating the file fails because it is there already")
            wopen(st, p, node)
            return one(st, V("any", term=T.mk("wfile", T.const(p), T.const(nkey(node))), extra=("wf", p)))
        fs.lose(st, "open mode", node)
        return None

    @hook("tempfile.mkstemp")
    def _mkstemp(E, st, a, kw, node):
        p = "<tmp%s>" % nkey(node)
        fs.set(st, p, [part(None)])
        return one(st, V("tuple", items=(V("any", extra=("wf", p)), vstr(p))))

    @hook("tempfile.NamedTemporaryFile", "tempfile.TemporaryFile")
    def _ntf(E, st, a, kw, node):
        p = "<tmp%s>" % nkey(node)
        wopen(st, p, node)
        return one(st, V("any", term=T.mk("wfile", T.const(p), T.const(nkey(node))), extra=("wf", p)))

    @hook("tempfile.mkdtemp", "tempfile.TemporaryDirectory")
    def _mkdtemp(E, st, a, kw, node):
        p = "<tmp%s>" % nkey(node)
        fs.set(st, p, [DIR])
        return one(st, vstr(p))

    @hook("shutil.copyfileobj")
    def _copyfileobj(E, st, a, kw, node):
        s, d = a[0].extra, a[1].extra
        if not (isinstance(s, tuple) and s[0] == "rf" and isinstance(d, tuple) and d[0] == "wf"):
            fs.lose(st, "copyfileobj", node)
            return None
        fs.snapshot(st, node)
        fs.set(st, d[1], [T.mk("unfl", s[1])])
        return one(st, NONE)

    # ---- whole-content readers
    def content_of(E, st, v, node, what, use=True):
        """(state, content) for a path or an open file handed to a reader."""
        x = v.extra
        if isinstance(x, tuple) and x and x[0] == "rf":
            if use:
                fs.use(st, node, x[1], what)
            return [(st, x[1])]
        t = tm(E, st, v)
        if t.op in ("bytesio",):
            if use:
                fs.use(st, node, t.args[0], what)
            return [(st, t.args[0])]
        p = fs.path(st, v, node)
        if p is None:
            return None
        c = fs.lookup(st, p)
        if use:
            fs.use(st, node, c, what + " " + short(p))
        out = []
        for y in sorted(c - {ABSENT}, key=lambda t: T.show(t)):
            s = st.copy()
            if len(c) > 1:
                fs.set(s, p, [y], False)
            out.append((s, y))
        return out

    @hook("io.BytesIO")
    def _bytesio(E, st, a, kw, node):
        if a:
            t = tm(E, st, a[0])
            return one(st, V("any", term=T.mk("bytesio", t), extra=("rf", t, "")))

    @hook("bz2.BZ2File", "bz2.open", "gzip.open", "lzma.open")
    def _bz2(E, st, a, kw, node):
        r = content_of(E, st, a[0], node, "unpacks", use=False)
        return None if r is None else [(s, V("any", term=T.mk("rfile", T.mk("unz", c), T.const(nkey(node))), extra=("rf", T.mk("unz", c), ""))) for s, c in r]

    @hook("bz2.decompress", "gzip.decompress")
    def _bz2d(E, st, a, kw, node):
        t = tm(E, st, a[0])
        fs.use(st, node, t, "unpacks")
        return one(st, V("any", term=T.mk("unz", t)))

    @hook("sklearn.datasets.load_svmlight_file")
    def _svm(E, st, a, kw, node):
        r = content_of(E, st, a[0] if a else kw.get("f"), node, "parses")
        if r is None:
            return None
        out = []
        for s, c in r:
            c = plain(c)
            X = sp_new(E, s, node, V("sp", term=T.mk("svm", c, T.const("X")), dt="f", fmt="csr"))
            y = E.arr(s, node, "svmy", V("arr", term=T.mk("svm", c, T.const("y")), dt="f"))
            out.append((s, V("tuple", items=(X, y))))
        return out

    @hook("numpy.load")
    def _npload(E, st, a, kw, node):
        r = content_of(E, st, a[0], node, "loads")
        if r is None:
            return None
        out = []
        for s, c in r:
            c = plain(c)
            t = c.args[0] if c.op == "npy" else T.mk("npyof", c)
            out.append((s, E.arr(s, node, "npy%x" % (hash(T.show(t, 9)) & 0xffffff), V("arr", term=t))))
        return out

    @hook("numpy.save")
    def _npsave(E, st, a, kw, node):
        t = plain(T.mk("npy", tm(E, st, cont(E, st, a[1] if len(a) > 1 else kw["arr"]))))
        x = a[0].extra
        if isinstance(x, tuple) and x and x[0] == "wf":
            fs.snapshot(st, node)
            fs.set(st, x[1], [T.mk("unfl", t)])
            return one(st, NONE)
        p = fs.path(st, a[0], node)
        if p is None:
            return None
        if not p.endswith(".npy"):
            p += ".npy"
        fs.parent(st, p, node)
        fs.change(st, node, p, [t], False)
        client.saves.add(p)
        return one(st, NONE)

    @hook("scipy.sparse.csr_matrix", "scipy.sparse.csr_array")
    def _csr(E, st, a, kw, node):
        its = E.items_of(st, a[0]) if a and a[0].kind in ("tuple", "list") else None
        if its is None or len(its) != 3:
            return None
        ts = [plain(tm(E, st, cont(E, st, x))) for x in its]
        client.triple(E, st, node, ts)
        return one(st, sp_new(E, st, node, V("sp", term=plain(T.mk("csr", *ts)), fmt="csr")))

    # ---- archives
    @hook("tarfile.open", "tarfile.TarFile", "zipfile.ZipFile")
    def _tar(E, st, a, kw, node):
        f = a[0] if a and a[0].kind != "none" else kw.get("fileobj", kw.get("name"))
        if f is None:
            return None
        r = content_of(E, st, f, node, "unpacks", use=False)
        if r is None:
            return None
        out = []
        for s, c in r:
            out.append((s, V("any", term=T.mk("tar", c), extra=("tar", c))))
        return out

    # ---- digests
    def hexd(E, st, data):
        return T.mk("digest", data)

    def _hash(E, st, a, kw, node):
        name = node.func.attr if isinstance(getattr(node, "func", None), ast.Attribute) else ""
        data = a[1:] if name == "new" else a
        k = "h:" + nkey(node)
        st.ts[k] = base(tm(E, st, data[0])) if data else None
        return one(st, V("any", term=T.mk("hash", T.const(nkey(node))), extra=("hash", k)))
    for n in HASHES:
        hook("hashlib." + n)(_hash)

    @hook("hashlib.file_digest")
    def _fd(E, st, a, kw, node):
        x = a[0].extra
        if isinstance(x, tuple) and x[0] == "rf":
            k = "h:" + nkey(node)
            st.ts[k] = x[1]
            return one(st, V("any", term=T.mk("hash", T.const(nkey(node))), extra=("hash", k)))

    def base(t):
        return t.args[0] if t.op == "chunk" else t

    @hook("builtins.iter")
    def _iter(E, st, a, kw, node):
        if len(a) == 2:
            out = []
            for s, v in E.call_value(st, a[0], [], {}, node):
                t = tm(E, s, v)
                if t.op == "chunk":
                    s.ts["eof"] = s.ts.get("eof", frozenset()) | {t.args[0]}
                o = E.alloc(s, node, "list", Cell("list", items=None, elem=v))
                out.append((s, V("list", objs=frozenset([o]))))
            return out
        x = a[0].extra if a else None
        if isinstance(x, tuple) and x and x[0] == "tar":
            return one(st, a[0])

    # ---- methods
    def method(E, st, recv, name, a, kw, node):
        if st.ts.get("lost"):
            return None
        if recv.kind == "str" and recv.known and name == "format":
            ps = [pathstr(E, st, x) if x.kind != "num" else None for x in a]
            if not kw and all(p is not None for p in ps):
                try:
                    return one(st, vstr(recv.const.format(*ps)))
                except (IndexError, KeyError, ValueError):
                    return None
            return None
        rt = tm(E, st, recv)
        if recv.kind != "str" and rt.op in ("meth", "memb", "basename") and member_name(rt) and name in ("split", "replace", "lstrip", "strip", "startswith", "endswith", "find", "count"):
            return one(st, V("any", term=T.mk("call", "." + name, rt, *[tm(E, st, x) for x in a])))
        x = recv.extra
        if not isinstance(x, tuple) or not x:
            return None
        if x[0] == "rf":
            if name == "read" or name in ("readall", "readlines", "readline"):
                c = x[1]
                if c.op == "unz":
                    fs.use(st, node, c.args[0], "unpacks")
                whole = name in ("read", "readall") and (not a or a[0].kind == "none" or (a[0].known and a[0].const == -1))
                if not whole:
                    st.ts["rd"] = st.ts.get("rd", frozenset()) | {c}
                return one(st, V("any", term=c if whole else T.mk("chunk", c)))
            if name in ("close", "seek", "tell", "flush"):
                return one(st, NONE)
            if name in ("__enter__",):
                return one(st, recv)
            return None
        if x[0] == "wf":
            p = x[1]
            if name == "write":
                t = tm(E, st, a[0])
                client.seen(st, "file change", node)
                fs.snapshot(st, node)
                temp = isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Call)
                if t.op == "chunk":
                    fs.set(st, p, [part(t.args[0])])
                else:
                    fs.set(st, p, [t if temp else T.mk("unfl", t)])
                if temp:
                    st.ts["open"] = frozenset(o for o in st.ts.get("open", ()) if o[0] != p)
                return one(st, vany())
            if name in ("close", "flush", "__exit__"):
                flush(st, [p])
                return one(st, NONE)
            if name in ("fileno",):
                return one(st, vany())
            return None
        if x[0] == "hash":
            k = x[1]
            if name == "update":
                st.ts[k] = base(tm(E, st, a[0]))
                return one(st, NONE)
            if name in ("hexdigest", "digest"):
                c = st.ts.get(k)
                if c is None:
                    eof = st.ts.get("eof", frozenset())
                    if len(eof) != 1:
                        return None
                    c = next(iter(eof))
                return one(st, V("str", term=T.mk("digest", c)))
            return None
        if x[0] == "tar":
            c = x[1]
            if name in ("getmembers", "getnames", "infolist", "namelist"):
                fs.use(st, node, c, "unpacks")
                nm = name in ("getnames", "namelist")
                m = V("any", term=T.mk("memb", c, T.const("name")) if nm else T.mk("memb", c), extra=None if nm else ("memb", c))
                o = E.alloc(st, node, "list", Cell("list", items=None, elem=m, extra={"members": True}))
                return one(st, V("list", objs=frozenset([o]), extra=("names" if nm else "members", c)))
            if name in ("extractfile", "open", "read"):
                fs.use(st, node, c, "unpacks")
                mc = T.mk("member", c)
                if name == "read":
                    return one(st, V("any", term=mc))
                f = V("any", term=T.mk("rfile", mc, T.const(nkey(node))), extra=("rf", mc, ""))
                if name == "open":
                    return one(st, f)
                s2 = st.copy()
                return [(st, f), (s2, NONE)]
            if name in ("extractall", "extract"):
                fs.use(st, node, c, "unpacks")
                i = 0 if name == "extractall" else 1
                dest = kw.get("path", a[i] if len(a) > i else None)
                p = fs.path(st, dest, node) if dest is not None else "."
                if p is None:
                    return None
                client.seen(st, "archive extraction", node)
                f = kw.get("filter")
                if f is not None and f.known and f.const in OKFILTER:
                    pass
                elif f is not None and not (f.known or f.kind == "none"):
                    E.note("extraction filter not known", node)
                elif "members" in kw or (len(a) > 1 and name == "extractall"):
                    E.note("extraction of selected members", node)
                elif name == "extract" and ("free" in st.ts.get("guard", ()) or {"abs", "dotdot"} <= st.ts.get("guard", frozenset())):
                    E.note("extraction of a checked member", node)
                elif client.checked_names(E, node):
                    E.note("extraction after a look at the names", node)
                else:
                    client.bad(st, node, "C22", "extract-filter", "the archive is extracted without filter='data': a member may name a path outside the data directory")
                hole = REST if name == "extractall" else CUR
                k = p + "/" + hole
                m = T.mk("member", c)
                old = fs.lookup(st, k)
                fs.snapshot(st, node)
                d = fs.get(st)
                d[k] = frozenset([ABSENT, part(None), m]) | old if hole == REST else frozenset([part(None)])
                fs.snapshot(st, node, d)
                d[k] = frozenset([m])
                if hole == REST:
                    fs.unshadow(d, k)
                fs.put(st, d)
                return one(st, NONE)
            if name in ("close",):
                return one(st, NONE)
            return None
        return None
    E.method_hooks.append(method)

    def elem(E, st, v, node, lid):
        x = v.extra
        if isinstance(x, tuple) and x and x[0] in ("tar", "members", "names"):
            lv = T.mk("loopvar", lid + ":m", loops=tuple(E.loops))
            if x[0] == "names":
                return one(st, V("any", term=T.mk("memb", x[1], lv, T.const("name"))))
            return one(st, V("any", term=T.mk("memb", x[1], lv), extra=("memb", x[1])))
        if isinstance(x, tuple) and x and x[0] == "rf":
            st.ts["rd"] = st.ts.get("rd", frozenset()) | {x[1]}
            return one(st, V("any", term=T.mk("chunk", x[1])))
    E.elem_hook = elem
    fs.flush = flush
    fs.nkey = nkey
    return fs


def short(p):
    return p.rsplit("/", 1)[-1]


# ---------------------------------------------------------------------------- the client
from .framework import Prop
from .engine import Engine, Program

ROLES = ("data", "indices", "indptr")


def functions(prog):
    """The public loaders of copt.datasets and their parameters."""
    m = prog.modules.get("copt.datasets")
    out = {}
    if m is None:
        return out
    for n in m.tree.body:
        if isinstance(n, ast.FunctionDef) and n.name.startswith("load_"):
            a = n.args
            ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            out[n.name] = ps
    return out


class Run:
    def __init__(self, name, loader, md5, build):
        self.name, self.loader, self.md5, self.build, self.tags, self.meta = name, loader, md5, build, (), {}


class Loaders(Prop):
    """Every loader analysed from the empty directory, from what a completed call leaves and from what each crash point leaves."""
    MAXSTART = 3000

    def runs(self):
        out = []
        root = getattr(self, "root", None)
        import sys
        r = "/repo"
        if "--root" in sys.argv:
            r = sys.argv[sys.argv.index("--root") + 1]
        for n, ps in functions(Program(r)).items():
            for md5 in ((True, False) if "md5_check" in ps else (None,)):
                def build(E, n=n, md5=md5):
                    return self.closure(E, n, md5)
                x = Run(n + ("" if md5 is None else "[md5_check=%s]" % md5), n, md5, None)
                x.ps = ps
                out.append(x)
        for x in out:
            x.build = lambda E, x=x: E.prop.closure(E, x)
        return out

    def setup(self, E, run):
        self.E = E
        self.run = run
        self.explicit = set()
        self.urls = set()
        self.saves = set()
        self.reads = set()
        self.starts = {}
        self.todo = []
        self.matter = set()
        self.dry = False
        self.limit = None
        self.later = False
        self.verifies = run.md5 is True
        self.mem = {}
        self.named = False
        self.kept = []
        self.tested = set()
        self.returns = {}
        self.fs = model(self, E)
        self.quiet = set()
        self.loaders = set(functions(E.prog))
        for n in self.loaders:
            E.extra_models["copt.datasets." + n] = self.reenter

    # ---- reporting
    def bad(self, st, node, prop, rule, msg):
        if prop == self.id and self.E.recording and not self.dry and not st.ts.get("lost") and not st.ts.get("handler"):
            k = self.E.where(node) + (rule,)
            if k not in self.quiet:
                self.quiet.add(k)
                self.report(self.E, node, rule, msg + (" (call sequence: %s)" % self.how if self.later else ""), detail=self.run.loader)

    def seen(self, st, what, node):
        if self.E.recording and not self.dry:
            self.obligation(what, self.E, node)

    def guarded(self, st, node):
        """A failure here is caught."""
        for f in [self.E.fnode.get(x) for x in st.stack]:
            if f is None:
                continue
            par = lint.parents(f)
            for n in ast.walk(f):
                if isinstance(n, ast.Try) and n.handlers and any(y is node or self.calls(y, st) for b in n.body for y in ast.walk(b)):
                    return True
                if isinstance(n, ast.With) and any("suppress" in ast.unparse(i.context_expr) for i in n.items) \
                        and any(y is node for b in n.body for y in ast.walk(b)):
                    return True
        return False

    def calls(self, y, st):
        if not isinstance(y, ast.Call):
            return False
        k = "@%s.%s" % (y.lineno, y.col_offset)
        return any(fid.endswith(k) for fid in st.stack)

    def checked_names(self, E, node):
        return self.named

    # ---- closure over file system states
    def closure(self, E, run):
        cfgs = [dict(subset=s) for s in ("full", "train", "test")] if "subset" in run.ps else [dict()]
        if run.md5 is not None:
            cfgs = [dict(md5_check=run.md5)]
        out = []
        # which parts of the initial state matter is learned first, without reporting
        self.dry = True
        for k in range(6):
            n = len(self.matter)
            self.starts, self.todo, self.returns = {}, [], {}
            self.limit = ("first call", "after a completed call") if k < 2 else None
            self.explore(E, run, cfgs)
            if len(self.matter) == n and k >= 2:
                break
        self.dry = False
        self.starts, self.todo, self.returns, self.limit = {}, [], {}, None
        out = self.explore(E, run, cfgs)
        if self.todo:
            E.note("more file system states than explored")
        self.obligation("initial file system state", n=len(self.starts))
        return out

    def explore(self, E, run, cfgs):
        self.add(frozenset(), None, "first call")
        out = []
        n = 0
        while self.todo and n < self.MAXSTART:
            start, cfg, how = self.todo.pop(0)
            for c in ([cfg] if cfg is not None else cfgs):
                n += 1
                E.steps = 0
                self.later = how != "first call"
                self.how = how
                self.cfg = c
                st = E.start(E.prog.modules["copt.datasets"])
                st.ts["fs"] = start
                st.ts["ver"] = frozenset()
                kw = {k: (vstr(v) if isinstance(v, str) else vbool(v)) for k, v in c.items()}
                self.entry = True
                for s, v in E.call_value(st, E.func("copt.datasets." + run.loader), [], kw, NODE):
                    if s.ts.get("lost"):
                        continue
                    if not self.dry:
                        self.obligation("return state")
                    self.check_kept(s, None)
                    self.returned(E, s, v, c)
                    out.append((s, v))
                    self.add(self.fs.bake(s, self.fs.get(s)), None, "after a completed call")
        return out

    def read_path(self, p):
        self.matter.add(p)

    def join_ts(self, k, a, b):
        return a & b if k == "_wr" else None

    def add(self, start, cfg, how):
        if self.limit is not None and not how.startswith(self.limit):
            return
        for st in self.concrete(dict(start)):
            st = frozenset(st.items())
            k = (st, tuple(sorted(cfg.items())) if cfg else None)
            if k not in self.starts and (st, None) not in self.starts:
                self.starts[k] = how
                self.todo.append((st, cfg, how))

    def concrete(self, d):
        """Initial states without the files that are written before they are looked at; where the members of an archive may or may not be
        there, with one file missing, with one file present, and with one file partly written."""
        d = {k: c for k, c in d.items() if k in self.matter or DIR in c or
             (REST in k and any(pattern(k).match(m) for m in self.matter if not any(h in m for h in HOLES)))}
        for k in list(d):
            if REST not in k or k.rsplit(REST, 1)[1]:
                continue
            ps = sorted(p for p in self.matter if p not in self.explicit and p not in d and pattern(k).match(p) and not self.isdir(p)
                        and not any(q.startswith(p + "/") for q in self.matter))
            c = d[k]
            if ABSENT not in c or not ps:
                continue
            full = [x for x in c if x is not ABSENT and not is_part(x)]
            if len(full) > 1:
                continue
            some = [x for x in c if is_part(x)][:1]
            here = lambda x, p: T.mk("member", x.args[0], T.const(p)) if x.op == "member" else x
            for p in ps:
                for rest in [ABSENT] + full:
                    for this in [ABSENT] + full + some:
                        if this is rest and p is not ps[0]:
                            continue
                        e = dict(d)
                        for q in ps:
                            x = this if q == p else rest
                            e[q] = frozenset([here(x, q)])
                        yield e
            return
        yield d

    def snap(self, start, node):
        self.add(start, None, "after an interruption at %s" % self.E.where(node)[0])

    def reenter(self, E, st, args, kwargs, node, fn):
        if self.entry:
            self.entry = False
            return None
        if fn.name != self.run.loader:
            if self.retrying(st):
                if self.id == "C22":
                    self.bad(st, node, "C22", "wrong-dataset", "retries with %s instead of %s" % (fn.name, self.run.loader))
                return []
            return None
        ps = self.run.ps
        c = dict(self.cfg)
        for i, a in enumerate(args):
            if i < len(ps) and a.known and ps[i] in c:
                c[ps[i]] = a.const
        for k, v in kwargs.items():
            if v.known and k in c:
                c[k] = v.const
        if "md5_check" in c and "md5_check" not in kwargs and not args:
            c["md5_check"] = True
        if E.recording and not st.ts.get("lost"):
            self.check_kept(st, node)
            self.add(self.fs.bake(st, self.fs.get(st)), c if c != self.cfg else None, self.how + ", retried" if self.later else "retry of the first call")
        return []

    def retrying(self, st):
        return any(s == "bad" for _, s in st.ts.get("ver", ()))

    def check_kept(self, st, node):
        if not self.verifies or self.dry or st.ts.get("lost"):
            return
        for p, cs in self.fs.get(st).items():
            if "<tmp" in p:
                continue
            for c in cs:
                for u in urls(c):
                    if self.fs.status(st, u) == "bad":
                        self.kept.append((p, self.last_bad.get(u.args[0].args[0]), st.ts.get("handler")))

    last_bad = {}

    # ---- events
    def literals(self, t, pol):
        if t is None:
            return
        if t.op == "not":
            yield from self.literals(t.args[0], not pol)
        elif (t.op == "and" and pol) or (t.op == "or" and not pol):
            for a in t.args:
                yield from self.literals(a, pol)
        elif t.op == "call" and t.args[0] in ("bool", "numpy.bool_") and len(t.args) == 2:
            yield from self.literals(t.args[1], pol)
        else:
            yield t, pol

    def on_branch(self, E, st, node, d):
        t = d["v"].term
        if t is None or d["forced"] or st.ts.get("lost"):
            return
        for a, pol in self.literals(t, d["pol"]):
            if a.op == "fsexists":
                p = a.args[0].args[0]
                self.tested.add(p)
                c = self.fs.lookup(st, p)
                c = c - {ABSENT} if pol else frozenset([ABSENT])
                if c:
                    self.fs.set(st, p, list(c), False)
            elif T.contains(a, lambda s: s.op == "digest"):
                self.compared(E, st, node, a, pol)
            elif member_name(a):
                self.name_test(st, a, pol)

    def compared(self, E, st, node, a, pol):
        dg = [s for s in T.subterms(a) if s.op == "digest"]
        eq = a.op in ("cmpEq", "eq") or (a.op == "call" and "compare_digest" in str(a.args[0])) or a.op in ("in", "cmpIn")
        ne = a.op in ("cmpNotEq", "ne", "cmpNotIn", "notin")
        self.seen(st, "checksum comparison", node)
        for s in dg:
            c = s.args[0]
            if not (eq or ne):
                for u in urls(c):
                    self.fs.setstatus(st, u, "unknown")
                continue
            match = pol == eq
            if is_part(c):
                if match:
                    st.ts["lost"] = True
                continue
            for u in urls(c):
                if c is u or c.op == "url":
                    self.fs.setstatus(st, u, "ok" if match else "bad")
                    if not match:
                        self.last_bad[u.args[0].args[0]] = E.where(node)
                elif match:
                    self.fs.setstatus(st, u, "ok")

    def name_test(self, st, a, pol):
        self.named = True
        g = set(st.ts.get("guard", ()))
        consts = {s.args[0] for s in T.subterms(a) if s.op == "const" and isinstance(s.args[0], str)}
        ops = {str(s.args[0]) if s.op in ("call", "meth") and not isinstance(s.args[0], T.Term) else
               str(s.args[0].args[0]) if s.op in ("call", "meth") and s.args and isinstance(s.args[0], T.Term) and s.args[0].op == "const" else s.op
               for s in T.subterms(a)}
        txt = " ".join(ops)
        if ".." in consts:
            # a positive answer to "is there a '..'" is no protection
            if not pol or a.op == "call" or any(x in txt for x in ("all",)):
                g.add("dotdot")
        elif "isabs" in txt or "is_absolute" in txt or ("startswith" in txt and consts & {"/", "\\"}) :
            if not pol:
                g.add("abs")
        elif any(x in txt for x in ("commonpath", "commonprefix", "realpath", "abspath", "normpath", "relative_to", "resolve", "startswith", "parts")):
            g.add("free")
        elif any(x in txt for x in ("isfile", "isdir", "isreg", "issym", "islnk", "isdev", "rfile", "size", "endswith")):
            return
        else:
            g.add("free")
        st.ts["guard"] = frozenset(g)

    def on_loop_enter(self, E, st, node, d):
        v = d.get("itv")
        x = v.extra if v is not None else None
        if isinstance(x, tuple) and x and x[0] in ("members", "tar", "names"):
            self.mem[d["lid"]] = x[1]

    def on_body_end(self, E, st, node, d):
        if d["lid"] in self.mem:
            fs = self.fs.get(st)
            out = {}
            for k, c in fs.items():
                if CUR in k:
                    k = k.replace(CUR, DONE)
                    out[k] = out.get(k, frozenset()) | c
                else:
                    out[k] = out.get(k, frozenset()) | c if DONE in k else c
            self.fs.put(st, out)
            st.ts.pop("guard", None)
            st.ts.pop("eof", None)

    def on_loop_exit(self, E, st, node, d):
        rd = st.ts.pop("rd", None)
        if rd:
            st.ts["eof"] = st.ts.get("eof", frozenset()) | rd
        if d["lid"] in self.mem and not st.ts.get("lost"):
            fs = self.fs.get(st)
            done = [k for k in fs if DONE in k or CUR in k]
            out = {}
            full = d["how"] == "exhausted"
            if full and not done:
                st.ts["lost"] = True        # an empty archive
                return
            bases = {k.replace(DONE, REST).replace(CUR, REST) for k in done}
            for k, c in fs.items():
                h = next((x for x in HOLES if x in k), None)
                if h is None:
                    out[k] = c
                    continue
                q = k.replace(h, REST)
                if h == REST and full and q in bases:
                    continue
                out[q] = out.get(q, frozenset()) | c
                if not full:
                    out[q] = out[q] | {ABSENT}
            for q in bases:
                self.fs.unshadow(out, q)
            self.fs.put(st, out)

    def on_with_exit(self, E, st, node, d):
        keys = {self.fs.nkey(n) for i in node.items for n in ast.walk(i.context_expr)}
        names = {n.id for i in node.items for n in ast.walk(i.context_expr) if isinstance(n, ast.Name)}
        op = st.ts.get("open", frozenset())
        ps = [o[0] for o in op if o[1] in keys]
        for n in names:
            v = st.frames[st.stack[-1]].get(n)
            if v is not None and isinstance(v.extra, tuple) and v.extra and v.extra[0] == "wf":
                ps.append(v.extra[1])
        if ps:
            self.fs.flush(st, ps)

    def on_leave(self, E, st, node, d):
        op = st.ts.get("open", frozenset())
        ps = [o[0] for o in op if o[2] == d["fid"]]
        r = d.get("ret")
        keep = r.extra[1] if r is not None and isinstance(r.extra, tuple) and r.extra and r.extra[0] == "wf" else None
        ps = [p for p in ps if p != keep]
        if ps:
            self.fs.flush(st, ps)

    def on_raise(self, E, st, node, d):
        if E.recording and not self.guarded(st, node):
            self.check_kept(st, node)

    # ---- what is returned
    def triple(self, E, st, node, ts):
        self.seen(st, "sparse matrix assembled", node)
        roles = [self.role(t) for t in ts]
        if any(r is None for r in roles):
            E.note("origin of the parts of the matrix not known", node)
            return
        if tuple(r[0] for r in roles) != ROLES:
            self.bad(st, node, "C23", "roles", "the matrix is assembled from %s where values, column indices and row pointers belong"
                     % ", ".join(r[0] for r in roles))
        elif len({r[1] for r in roles}) > 1:
            self.bad(st, node, "C23", "mixed-parts", "the parts of the matrix come from different matrices")

    def role(self, t):
        if t.op == "part" and len(t.args) == 2:
            return t.args[0].args[0], t.args[1]
        if t.op == "npyof" and t.args[0].op == "member" and len(t.args[0].args) == 2:
            p = t.args[0].args[1].args[0]
            b = p.rsplit("/", 1)[-1]
            for r in ROLES:
                if "." + r + "." in b:
                    return r, p.replace("." + r + ".", ".*.")
        if t.op in ("svm", "npyof"):
            return "targets", t
        return None

    def returned(self, E, st, v, cfg):
        if v.kind != "tuple" or v.items is None or len(v.items) != 2:
            return
        ts = [plain(E.term_of(st, x)) for x in v.items]
        for i, t in enumerate(ts):
            self.returns.setdefault((tuple(sorted(cfg.items())), i), {}).setdefault(t, self.how)
        sub = cfg.get("subset")
        if sub or self.run.md5 is None:
            self.subset(E, st, sub, ts)

    def subset(self, E, st, sub, ts):
        for t, what in zip(ts, ("X", "y")):
            if T.contains(t, lambda s: s.op in ("fresh", "unk", "phi", "loopvar")):
                E.note("returned %s not known" % what)
                return
        for t, what in zip(ts, ("X", "y")):
            if T.contains(t, lambda s: s.op in ("loopvar",)):
                continue
            names = []
            for p in self.leaves(t):
                b = p.rsplit("/", 1)[-1]
                k = "train" if "train" in b else "test" if "test" in b else "?"
                if b[:1] not in ("X", "y") or k == "?":
                    return
                if (b[0], k) not in names:
                    names.append((b[0], k))
            want = {"train": ["train"], "test": ["test"], "full": ["train", "test"]}.get(sub)
            if want is None or self.dry:
                continue
            self.obligation("subset returned")
            if names != [(what, k) for k in want]:
                self.report_at("copt/datasets.py", self.run.loader, "subset", "subset %r returns %s made of %s" % (
                    sub, what, ", ".join("%s_%s" % n for n in names)), "%s-%s" % (sub, what)) if self.id == "C23" else None

    def leaves(self, t):
        if t.op == "member" and len(t.args) == 2:
            yield t.args[1].args[0]
            return
        for a in t.args:
            if isinstance(a, T.Term):
                yield from self.leaves(a)

    def finish(self, E, run, results):
        if self.id == "C23":
            for (cfg, i), d in self.returns.items():
                self.obligation("cached result compared with the first one")
                if any(T.contains(t, lambda s: s.op in ("fresh", "unk", "phi", "loopvar")) for t in d):
                    E.note("returned value not known")
                    continue
                if len(d) > 1:
                    (t1, h1), (t2, h2) = list(d.items())[:2]
                    self.report_at("copt/datasets.py", run.loader, "cached-differs", "%s is %s %s but %s %s" % (
                        ("X", "y")[i], T.show(t1, 6), h1, T.show(t2, 6), h2), ("X", "y")[i])
        if self.id == "C22":
            for p, w, h in self.kept:
                if p in self.tested or any(p == x for x in self.existence):
                    self.report_at(w[0] if w else "", w[1] if w else run.loader, "corrupt-kept",
                                   "a download with the wrong checksum stays at %s, where later calls take it for the dataset" % short(p), run.loader)
                    break
        self.data = dict(loader=run.loader, urls=sorted(self.urls), paths=sorted(p for p in self.explicit if "/" in p and not self.isdir(p)),
                         reads=sorted(self.reads))

    existence = ()

    def isdir(self, p):
        return p.endswith(">") or any(q.startswith(p + "/") for q in self.explicit)

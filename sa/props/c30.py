import ast
import os
import re
import warnings

from ..framework import Prop
from .. import apiuse


class Check(Prop):
    id = "C30"
    technique = "name and signature resolution of the documentation and of the example scripts against the package's syntax trees"
    rule = """Every copt.* name listed by an autosummary / auto* directive or a cross-reference role in doc/*.rst resolves to a definition
    reachable from `import copt`. In every script under examples/, every attribute chain that starts at the package resolves, and every
    call of a function, class, bound method or instance of the package matches its signature (types are followed through assignments,
    containers, loops, instances and local subclasses). All literal version numbers in copt/__init__.py, setup.py and doc/conf.py agree."""

    def whole(self, prog):
        self.prog = prog
        warnings.simplefilter("ignore", SyntaxWarning)
        self.docs()
        self.examples()
        self.versions()

    # ------------------------------------------------------------ documentation
    def names(self, text):
        out = []
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            m = re.match(r"(\s*)\.\.\s+(autosummary|autofunction|autoclass|automethod|automodule|autodata)::\s*(\S*)", lines[i])
            if m:
                if m.group(3):
                    out.append((i + 1, m.group(3)))
                ind = len(m.group(1))
                if m.group(2) == "autosummary":
                    j = i + 1
                    while j < len(lines) and (not lines[j].strip() or len(lines[j]) - len(lines[j].lstrip()) > ind):
                        s = lines[j].strip()
                        if s and not s.startswith(":"):
                            out.append((j + 1, s.split()[0].lstrip("~")))
                        j += 1
                    i = j
                    continue
            for r in re.finditer(r":(?:func|meth|class|mod|attr|obj|data):`~?(?:[^`<]*<)?(copt\.[\w.]+)", lines[i]):
                out.append((i + 1, r.group(1)))
            i += 1
        return [(l, n.split("(")[0]) for l, n in out]

    def docs(self):
        d = os.path.join(self.prog.root, "doc")
        api = apiuse.Api(self.prog)
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if not f.endswith(".rst"):
                continue
            with open(os.path.join(d, f), encoding="utf-8") as fh:
                text = fh.read()
            cur = None
            for line, n in self.names(text):
                if not n.startswith("copt."):
                    continue
                self.obligation("documented name is reachable from import copt")
                why = self.reach(api, n)
                if why:
                    self.report_at("doc/%s:%d" % (f, line), n, "documented", "%s is documented, but %s" % (n, why))

    def reach(self, api, n):
        t = ("mod", "copt")
        parts = n.split(".")[1:]
        for i, p in enumerate(parts):
            if t[0] == "mod":
                r = api.attr(t[1], p)
                if r is False:
                    return "%s has no attribute %r after import copt" % (t[1], p)
                if r is None:
                    return None
                t = r
            elif t[0] == "cls":
                ch, op = api.mro(t[1], api.cls(t[1], t[2]))
                if not op and apiuse.member(ch, p) is None:
                    return "class %s has no member %r" % (t[2], p)
                return None
            else:
                return "%s is a function" % ".".join(parts[:i])
        return None

    # ------------------------------------------------------------ examples
    def examples(self):
        d = os.path.join(self.prog.root, "examples")
        for dp, dn, fn in os.walk(d):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.prog.root)
                with open(p, encoding="utf-8") as fh:
                    tree = ast.parse(fh.read(), p)

                def rep(node, rule, msg):
                    self.report_at("%s:%d" % (rel, node.lineno), rel, rule, msg, msg)

                def count(what):
                    self.obligation("%s of the package in an example resolves" % what)
                    self.sites.add((what, rel, ""))
                apiuse.Script(apiuse.Api(self.prog), rel, tree, rep, count).run()

    # ------------------------------------------------------------ version
    def versions(self):
        got = {}
        for f in ("copt/__init__.py", "setup.py", "doc/conf.py"):
            p = os.path.join(self.prog.root, f)
            if not os.path.exists(p):
                continue
            with open(p, encoding="utf-8") as fh:
                tree = ast.parse(fh.read(), p)
            consts = {}
            for x in ast.walk(tree):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Constant):
                    consts[x.targets[0].id] = x.value.value
            for x in ast.walk(tree):
                v = None
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id in ("__version__", "version") for t in x.targets):
                    v = x.value
                if isinstance(x, ast.Call) and getattr(x.func, "id", getattr(x.func, "attr", "")) == "setup":
                    v = {k.arg: k.value for k in x.keywords}.get("version")
                if isinstance(v, ast.Name):
                    v = ast.Constant(consts[v.id]) if v.id in consts else None
                if isinstance(v, ast.Constant) and isinstance(v.value, str):
                    self.obligation("version declared once or equal")
                    got.setdefault(v.value, (f, getattr(v, "lineno", 0)))
        if len(got) > 1:
            (a, b) = list(got.items())[:2]
            self.report_at("%s:%d" % b[1], b[1][0], "version", "version %r differs from %r in %s" % (b[0], a[0], a[1][0]))

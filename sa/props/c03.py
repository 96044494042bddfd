import ast
import importlib
import inspect

from ..framework import Prop
from .. import runs as R
from .. import lint, lib as L


class Check(Prop):
    id = "C03"
    technique = "name, attribute and signature resolution over the whole package (symbol tables) and along every analysed path"
    rule = """Every global name read in a module of the package is bound in it; every attribute chain starting at an imported module
    resolves in the installed version of that module; every keyword passed to a library function whose signature is known exists. Along
    every path analysed from a public routine, each attribute read exists on the kind of value it is read from and each call of a
    function of the package matches its signature. Reads under a handler or test for absence are exempt."""

    def runs(self):
        from .. import data
        return R.everything() + R.stochastic_combined() + data.loaders()

    def on_missing_attr(self, E, st, node, d):
        if E.recording and not lint.guarded(node):
            if str(d["base"]) == "None":
                return      # a value that is absent, not a name that does not exist
            self.report(E, node, "missing-attribute", "%s has no attribute %r" % (d["base"], d["name"]), detail=str(d["name"]))

    def on_undefined(self, E, st, node, d):
        if E.recording and not lint.guarded(node):
            self.report(E, node, "undefined-name", "name %r is not defined" % d["name"], detail=d["name"])

    def on_method(self, E, st, node, d):
        self.obligation("method exists on its receiver", E, node)

    def on_libcall(self, E, st, node, d):
        self.obligation("library function exists", E, node)

    def whole(self, prog):
        for m in prog.modules.values():
            src = open(m.path, encoding="utf-8").read()
            rel = m.path[len(prog.root) + 1:]
            und = lint.undefined_globals(m, src)
            self.obligation("global names of a module are bound")
            for n in sorted(und):
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load) and not lint.guarded(x):
                        self.report_at("%s:%d" % (rel, x.lineno), lint.enclosing(x), "undefined-name", "name %r is not defined" % n, n)
                        break
            imp = lint.imports(m.tree)
            for x in ast.walk(m.tree):
                if isinstance(x, ast.ImportFrom) and not x.level and not lint.guarded(x):
                    self._importfrom(rel, x, prog)
                if isinstance(x, ast.Import) and not lint.guarded(x):
                    for a in x.names:
                        if L._real(a.name) is False:
                            self.report_at("%s:%d" % (rel, x.lineno), lint.enclosing(x), "missing-module", "no module %s" % a.name, a.name)
                if isinstance(x, ast.Attribute) and not isinstance(getattr(x, "_parent", None), ast.Attribute):
                    self._chain(rel, x, imp)
                if isinstance(x, ast.Call):
                    self._keywords(rel, x, imp)

    def _importfrom(self, rel, x, prog):
        if x.module is None:
            return
        if x.module in prog.modules:
            for a in x.names:
                self.obligation("imported name exists")
                if a.name != "*" and a.name not in prog.modules[x.module].bind and x.module + "." + a.name not in prog.modules:
                    self.report_at("%s:%d" % (rel, x.lineno), lint.enclosing(x), "missing-name", "%s has no name %r" % (x.module, a.name), a.name)
            return
        m = L._real(x.module)
        if m is None:
            return
        for a in x.names:
            self.obligation("imported name exists")
            if m is False or (a.name != "*" and not hasattr(m, a.name) and L._real(x.module + "." + a.name) in (None, False)):
                self.report_at("%s:%d" % (rel, x.lineno), lint.enclosing(x), "missing-name", "%s has no name %r" % (x.module, a.name), a.name)

    def resolve(self, x, imp):
        ch = lint.dotted(x)
        if ch is None or ch[0] not in imp or lint.shadowed(x, ch[0]):
            return None, None
        path = imp[ch[0]].split(".") + ch[1:]
        return path, len(imp[ch[0]].split("."))

    def _chain(self, rel, x, imp):
        path, k = self.resolve(x, imp)
        if path is None or lint.guarded(x):
            return
        root = L._real(path[0])
        if root in (None, False):
            return
        obj, name = root, path[0]
        self.obligation("attribute chain of an imported module resolves")
        for i, p in enumerate(path[1:]):
            nxt = getattr(obj, p, None) if hasattr(obj, p) else (L._real(name + "." + p) or None)
            if nxt is None and not hasattr(obj, p):
                if inspect.ismodule(obj) or inspect.isclass(obj):
                    self.report_at("%s:%d" % (rel, x.lineno), lint.enclosing(x), "missing-attribute", "%s has no attribute %r" % (name, p), p)
                return
            if not (inspect.ismodule(nxt) or inspect.isclass(nxt)):
                return
            obj, name = nxt, name + "." + p

    def _keywords(self, rel, x, imp):
        if not x.keywords or lint.guarded(x):
            return
        path, _ = self.resolve(x.func, imp)
        if path is None:
            return
        obj = L._real(path[0])
        for p in path[1:]:
            if obj in (None, False):
                return
            obj = getattr(obj, p, None)
        if obj is None or not callable(obj) or inspect.isclass(obj):
            return
        try:
            sig = inspect.signature(obj)
        except (ValueError, TypeError):
            return
        if any(q.kind is q.VAR_KEYWORD for q in sig.parameters.values()):
            return
        for kw in x.keywords:
            if kw.arg is None:
                continue
            self.obligation("keyword of a library function exists")
            if kw.arg not in sig.parameters:
                self.report_at("%s:%d" % (rel, x.lineno), lint.enclosing(x), "missing-keyword", "%s takes no argument %r" % (".".join(path), kw.arg), kw.arg)

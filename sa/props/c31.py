import ast

from ..framework import Prop
from .. import runs as R, linear as LN

SIZES = {"C", "R", "F", "S", "G", "B", "F+1", "n_features"}
USER = {"f", "fun", "jac", "f_grad", "f_deriv", "lmo", "prox", "prox_1", "prox_2", "kernel_1", "kernel_2", "callback", "args", "args_prox",
        "stepfun", "step", "loss", "i", "bs_indices", "bs_indptr", "d"}


def items(r):
    return set(z for z in r.name.replace("]", "").replace("[", ",").split(","))


def needless(run):
    """Controls that do not apply in the configuration."""
    t, m = items(run), run.meta
    out = set()
    n = run.name
    if n.startswith(("minimize_frank_wolfe", "minimize_proximal", "build_func_grad")):
        # the step of the finite differences: only when there is no gradient ('2-point': see the finding of C10)
        if not (t & {"jac=false", "jac=none", "false", "none"}):
            out.add("eps")
    if n.startswith("minimize_proximal") and "callable" in t:
        out |= {"max_iter_backtracking", "backtracking_factor"}
    if n.startswith("minimize_three_split") and "line_search=False" in t:
        out |= {"max_iter_backtracking", "backtracking_factor"}
    if n.startswith("minimize_primal_dual") and (("line_search=False" in t) or "step_size2" in t and "line_search" not in t):
        out |= {"max_iter_ls"}
    if n.startswith(("minimize_frank_wolfe", "minimize_sfw")):
        out.add("x0_rep")               # the name of the starting vertex, not a quantity
    if ".lmo" not in n and n.split(".")[0] in ("LinfBall", "L2Ball", "L1Ball", "SimplexConstraint", "TraceBall"):
        out.add("step_size")            # projections do not depend on the step
    if n == "TotalVariation2D.call":
        out |= {"max_iter", "tol"}
    if n.split("[")[0].endswith(".deriv"):
        out |= {"A", "b", "alpha"}      # documented
    if ".lipschitz" in n or ".max_lipschitz" in n or ".hess" in n:
        out.add("b")
    if ".lipschitz" in n or ".max_lipschitz" in n:
        out |= {"x", "s", "delta"}
    if n.startswith("sample_batches") or n.startswith("Trace"):
        out |= {"f"}
    return out


class Check(Prop):
    id = "C31"
    technique = "data- and control-dependence analysis: taint of every accepted control tracked into the result of every configuration, and flow of constants into the names of the controls"
    rule = """For every solver, operator, penalty, constraint and loss, in every configuration: each numerical control passed in is among
    the data or control dependences of the iterate that is returned (for operators: of every component of the value on every returning
    path), unless it does not apply in that configuration. Inside the entry function a name that holds a control is never rebound to
    a constant before it was read, on a path that was not
    selected by that control's own value."""

    def runs(self):
        return (R.solvers() + R.penalties() + R.kernels() + R.constraints() + R.tvs() + R.utils_()
                + [r for r in R.losses() if r.meta["fmt"] in ("dense", "csr")])

    def setup(self, E, run):
        self.run = run
        self.need = needless(run)
        self.passed = {}
        self.res = {}
        self.where = None
        self.kfid = None

    def labels(self, E, st, v):
        return {x for x in E.deps_of(st, [v]) if x not in USER and x not in SIZES}

    def on_enter(self, E, st, node, d):
        if len(st.stack) != 2:
            return
        fr = st.frames[d["fid"]]
        self.kfid = d["fid"]
        for k, v in fr.items():
            if k.startswith("$") or k == "self":
                continue
            ls = self.labels(E, st, v)
            for x in ls:
                self.passed.setdefault(x, (d["fn"].name, k))
            if ls:
                st.ts.setdefault("_own", {})
                st.ts["_own"] = dict(st.ts["_own"], **{d["fid"] + "." + k: frozenset(ls)})

    def on_bind(self, E, st, node, d):
        own = st.ts.get("_own") or {}
        ls = own.get("%s.%s" % (d["fid"], d["name"]))
        if not ls or not E.recording:
            return
        v = d["v"]
        if v.kind != "num" or not v.known or self.read_before(E, node, d["name"]):
            return
        if ls & set(v.deps) or ls & set(st.pc):
            return
        self.obligation("a control is not replaced by a constant", E, node)
        self.report(E, node, "replaced", "the argument %r is replaced by the constant %r whatever its value" % (d["name"], v.const), d["name"])

    def read_before(self, E, node, name):
        """Has the name been read before it is bound here, in the text of the function?"""
        for m in E.prog.modules.values():
            fs = [f for f in ast.walk(m.tree) if isinstance(f, ast.FunctionDef) and any(n is node for n in ast.walk(f))]
            if fs:
                return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and n.lineno < node.lineno
                           for n in ast.walk(fs[0]))
        return True

    def on_result(self, E, st, node, d):
        if len(st.stack) > 2:
            return
        for k, v in d["kw"].items():
            if k == "x":
                self.where = node
                self.res.setdefault(k, set()).update(set(E.deps_of(st, [v])) | set(st.pc))

    def finish(self, E, run, results=[]):
        E.recording = True
        res = self.res
        if not res:
            for st, v in results:
                kx = getattr(E, "kernel_x", None)
                if kx is not None and run.name.endswith("kernel"):
                    v = kx
                its = list(enumerate(v.items)) if v.kind == "tuple" and isinstance(v.items, tuple) else [("", v)]
                if ".lmo" in run.name:
                    its = its[:1]
                elif run.name.startswith("build_func_grad"):
                    its = its[-1:]
                for k, x in its:
                    d = set(E.deps_of(st, [x])) | set(st.pc)
                    res[k] = res[k] & d if k in res else d
        if not res:
            E.note("C31: no result analysed for %s" % run.name)
            return
        for k, d in res.items():
            for x in sorted(set(self.passed) - self.need):
                fn, name = self.passed[x]
                self.obligation("an accepted control takes effect", E, None)
                if x not in d:
                    what = "" if k == "" else (" (component %s)" % k if isinstance(k, int) else "")
                    self.report_at(self.site(E, fn), run.name.split("[")[0], "no-effect", "%s does not influence the result%s in %s" % (
                        "the argument %r" % name if name == x else "the argument %r (%s)" % (name, x), what, run.name), x)

    def site(self, E, fn):
        n = self.run.name.split("[")[0].split(" ")[0]
        for want in (n.split(".")[0], fn):
            for m in E.prog.modules.values():
                for f in ast.walk(m.tree):
                    if isinstance(f, (ast.FunctionDef, ast.ClassDef)) and f.name == want:
                        if isinstance(f, ast.ClassDef):
                            for g in f.body:
                                if isinstance(g, ast.FunctionDef) and g.name in (n.split(".")[-1], "f_grad"):
                                    f = g
                                    break
                        return "%s:%d" % (m.path[len(E.prog.root) + 1:], f.lineno)
        return n

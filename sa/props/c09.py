from ..solver import *
from .. import data as D

BAD = ("no such option", "", "DR2", "backtrackin", "PAIRWISE", "vanilla ")
TAG = "the option"


def bad(v):
    return (vstr(v) if isinstance(v, str) else vnum(v) if v is not None else NONE).r(deps=frozenset([TAG]))


NOTPOS = (("zero", vnum(0).r(deps=frozenset([TAG]))), ("negative", scalar("negative budget", ONE, "i", (-INF, -1)).r(deps=frozenset([TAG]))))

# options of the solvers whose values are strings, with their documented values
DOCUMENTED = {"step": ("backtracking", "DR", "sublinear"), "variant": ("vanilla", "pairwise"), "pgstep": ("backtracking", "fixed"), "sfwvariant": R.SFW_VARIANTS,
              "lmo_variant": ("vanilla", "pairwise"), "step_size": ("sublinear", "DR"), "jac": ("2-point",), "subset": ("full", "train", "test"),
              "parse": ("adaptive",), "loss": ("logloss",)}


def literals(E, *mods):
    """String literals the modules compare with or collect in containers: the only strings the code can tell apart."""
    out = set()
    for m in mods:
        for n in ast.walk(E.prog.modules[m].tree):
            els = []
            if isinstance(n, ast.Compare):
                els = [n.left] + n.comparators
            elif isinstance(n, (ast.Set, ast.Tuple, ast.List)):
                els = n.elts
            elif isinstance(n, ast.Dict):
                els = n.keys
            out |= {e.value for e in els if isinstance(e, ast.Constant) and isinstance(e.value, str) and len(e.value) < 30 and "/" not in e.value}
    return sorted(out)


def each(opt, key, mk, *mods):
    """One analysis per literal of the modules that is not a documented value of the option."""
    def build(E):
        out = []
        for s in literals(E, *mods):
            if s in DOCUMENTED[opt]:
                continue
            for st, v in mk({key: bad(s)})(E):
                st.ts["value"] = repr(s)
                out.append((st, v))
        return out
    return build


class Check(SolverProp):
    id = "C09"
    technique = "path feasibility analysis of each routine under undocumented option values (abstract interpretation with constant propagation)"
    rule = """Each routine is analysed with one option outside its documented set (several undocumented strings, None and numbers where
    these are undocumented), with a missing companion argument, or with a line-search budget that is not positive. No feasible path
    may end in a normal return. With every documented value some path ends in a normal return."""

    def runs(self):
        out = []

        def add(name, opt, value, build):
            out.append(R._r("%s(%s=%s)" % (name, opt, value if not isinstance(value, str) else repr(value)), build, "bad", expect=False, opt=opt, fn=name, value=repr(value)))

        for b in BAD:
            v = bad(b)
            for jac in ("callable", "true", "none"):
                add("minimize_frank_wolfe[jac=%s]" % jac, "step", b, frank_wolfe(jac=jac, lipschitz=True, extra={"step": v}))
            add("minimize_frank_wolfe", "variant", b, frank_wolfe(extra={"variant": v}))
            for acc in (False, True):
                for cb in (True, False):
                    add("minimize_proximal_gradient[accelerated=%s,callback=%s]" % (acc, cb), "step", b, prox_grad(accelerated=acc, callback=cb, extra={"step": v}))
            add("minimize_sfw", "variant", b, sfw(extra={"variant": v}))
            add("minimize_sfw", "lmo_variant", b, sfw(extra={"lmo_variant": v}))
            for w in R.SFW_VARIANTS:
                add("minimize_sfw[%s]" % w, "step_size", b, sfw(w, lipschitz=True, extra={"step_size": v}))
            for j in ("callable", "true"):
                add("minimize_frank_wolfe[fun %s]" % ("pair" if j == "true" else "value"), "jac", b, frank_wolfe(jac=j, extra={"jac": v}))
            for acc in (False, True):
                for j in ("callable", "true"):
                    add("minimize_proximal_gradient[accelerated=%s,fun %s]" % (acc, "pair" if j == "true" else "value"), "jac", b,
                        prox_grad(jac=j, accelerated=acc, extra={"jac": v}))
            for n in ("load_madelon", "load_rcv1", "load_gisette"):
                for tf in (False, True):
                    add("%s[tf=%s]" % (n, tf), "subset", b, D.load(n, tf=tf, extra={"subset": v}))
            add("parse_step_size", "step_size", b, helper("copt.utils.parse_step_size", [v]))
        add("get_max_lipschitz", "loss", "no such option", helper("copt.utils.get_max_lipschitz", None, bad("no such option")))
        add("minimize_frank_wolfe", "step", None, frank_wolfe(lipschitz=True, extra={"step": bad(None)}))
        add("minimize_frank_wolfe", "variant", None, frank_wolfe(extra={"variant": bad(None)}))
        add("minimize_sfw", "variant", None, sfw(extra={"variant": bad(None)}))
        add("minimize_sfw", "lmo_variant", None, sfw(extra={"lmo_variant": bad(None)}))
        add("minimize_sfw", "step_size", None, sfw(extra={"step_size": bad(None)}))
        RM, FM, PM, UM, DM = "copt.randomized", "copt.frank_wolfe", "copt.proximal_gradient", "copt.utils", "copt.datasets"
        add("minimize_frank_wolfe", "step", "other literals", each("step", "step", lambda e: frank_wolfe(lipschitz=True, extra=e), FM))
        add("minimize_frank_wolfe", "variant", "other literals", each("variant", "variant", lambda e: frank_wolfe(extra=e), FM))
        add("minimize_frank_wolfe", "jac", "other literals", each("jac", "jac", lambda e: frank_wolfe(jac="true", extra=e), FM, UM))
        for acc in (False, True):
            add("minimize_proximal_gradient[accelerated=%s]" % acc, "step", "other literals",
                each("pgstep", "step", lambda e, acc=acc: prox_grad(accelerated=acc, extra=e), PM))
            add("minimize_proximal_gradient[accelerated=%s]" % acc, "jac", "other literals",
                each("jac", "jac", lambda e, acc=acc: prox_grad(jac="true", accelerated=acc, extra=e), PM, UM))
        add("minimize_proximal_gradient[accelerated=True]", "step", "fixed", prox_grad(accelerated=True, extra={"step": bad("fixed")}))
        add("minimize_sfw", "variant", "other literals", each("sfwvariant", "variant", lambda e: sfw(extra=e), RM))
        add("minimize_sfw", "lmo_variant", "other literals", each("lmo_variant", "lmo_variant", lambda e: sfw(extra=e), RM))
        add("minimize_sfw", "step_size", "other literals", each("step_size", "step_size", lambda e: sfw(lipschitz=True, extra=e), RM))
        for n in ("load_madelon", "load_rcv1", "load_gisette"):
            add(n, "subset", "other literals", each("subset", "subset", lambda e, n=n: D.load(n, extra=e), DM))
        add("parse_step_size", "step_size", "other literals", each("parse", 0, lambda e: helper("copt.utils.parse_step_size", [e[0]]), UM))
        add("get_max_lipschitz", "loss", "other literals", each("loss", 0, lambda e: helper("copt.utils.get_max_lipschitz", None, e[0]), UM))
        # companions and budgets
        for w in ("vanilla", "pairwise"):
            add("minimize_frank_wolfe[%s]" % w, "lipschitz", "missing", frank_wolfe(step="DR", variant=w, lipschitz=False, extra={"lipschitz": bad(None)}))
            for v in ("SAG", "SAGA"):
                add("minimize_sfw[%s,%s]" % (v, w), "lipschitz", "missing", sfw(v, step="DR", lmo_variant=w, lipschitz=False, extra={"lipschitz": bad(None)}))
            for v in ("MHK", "LF"):
                add("minimize_sfw[%s,%s]" % (v, w), "step_size", "DR", sfw(v, lmo_variant=w, lipschitz=True, extra={"step_size": bad("DR")}))
            add("minimize_frank_wolfe[%s]" % w, "tol", "negative", frank_wolfe(variant=w, extra={"tol": vnum(-1e-3).r(deps=frozenset([TAG]))}))
        for w, n in NOTPOS:
            for acc in (False, True):
                for s in ("backtracking", "callable"):
                    add("minimize_proximal_gradient[%s,accelerated=%s]" % (s, acc), "max_iter_backtracking", w,
                        prox_grad(step=s, accelerated=acc, extra={"max_iter_backtracking": n}))
            for g in (True, False):
                add("minimize_three_split[step_size given: %s]" % g, "max_iter_backtracking", w, three_split(step_size=g, extra={"max_iter_backtracking": n}))
            for l in ("op", None):
                add("minimize_primal_dual[L=%s]" % l, "max_iter_ls", w, primal_dual(L_=l, extra={"max_iter_ls": n}))
        for r in tested_runs(callback={"callback": NONE}) + [r for r in R.solvers() if "jac" in r.tags or "callable" in r.name] + R.utils_() + D.loaders():
            out.append(R._r(r.name, r.build, "documented", expect=True))
        return out

    def setup(self, E, run):
        self.run = run
        self.where = None
        self.fnname = ""

    def on_enter(self, E, st, node, d):
        if self.where is None:
            f = d["fn"]
            self.fnname = f.name
            self.where = "%s:%d" % (f.module.path, getattr(f.node, "lineno", 0)) if hasattr(f, "module") else ""

    def on_branch(self, E, st, node, d):
        if not d.get("forced") and TAG in (d["v"].deps or ()):
            st.ts["maybe"] = True

    def finish(self, E, run, results):
        if run.meta["expect"]:
            self.obligation("a documented value is accepted")
            if not results and not E.undecided:
                self.report_at(self.where or "", self.fnname or run.name, "rejected", "no path returns normally under %s" % run.name, detail=run.name)
            return
        self.obligation("an undocumented value is rejected")
        m = run.meta
        for st, v in results or []:
            if not st.ts.get("maybe"):
                return self.report_at(self.where or "", self.fnname, "accepted", "%s is %s, yet %s can return normally" % (m["opt"], st.ts.get("value", m["value"]), m["fn"]), detail=m["opt"])
        if results:
            E.note("a test of the option is not decided")


def helper(qual, args, extra=None):
    def build(E):
        st = E.start(E.prog.modules["copt.utils"])
        a = args
        if a is None:
            a = [param(E, st, "A", ("S", "F")), extra]
        return E.call_value(st, E.func(qual), a, {}, NODE)
    return build

import ast

from ..framework import Prop
from .. import runs as R
from .. import lint

# draws from NumPy's global generator
GLOBAL = {"numpy.random." + n for n in (
    "shuffle permutation randint random_integers choice rand randn random random_sample ranf sample uniform normal standard_normal "
    "beta binomial bytes exponential gamma geometric gumbel laplace logistic lognormal multinomial multivariate_normal poisson "
    "standard_exponential triangular zipf weibull vonmises wald standard_t standard_gamma standard_cauchy rayleigh power pareto "
    "negative_binomial noncentral_f noncentral_chisquare hypergeometric f dirichlet chisquare logseries").split()}
PRIVATE = {"numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.Generator", "numpy.random.PCG64", "numpy.random.MT19937",
           "numpy.random.SeedSequence", "random.Random"}
SEED = {"numpy.random.seed", "numpy.random.set_state", "numpy.random.set_bit_generator", "random.seed", "random.setstate"}
ENTROPY = ("random.", "secrets.", "uuid.uuid1", "uuid.uuid4", "os.urandom", "os.getrandom")
# library routines that start from random numbers of their own unless told otherwise: argument that settles it
STARTED = {"scipy.sparse.linalg.svds": (), "scipy.sparse.linalg.eigsh": ("rng",), "scipy.sparse.linalg.eigs": ("rng",), "scipy.sparse.random": ("rng", "random_state"),
           "sklearn.utils.extmath.randomized_svd": ("random_state",), "sklearn.utils.shuffle": ("random_state",)}


class Check(Prop):
    id = "C26"
    technique = "interprocedural effect analysis (random draws, reseeding, clock reads) over every analysed configuration, plus resolution of every generator named in the package"
    rule = """No call of numpy.random.seed / set_state exists in the package. No other source of randomness (module random, os.urandom,
    unseeded generators, library routines that start from their own random numbers) is called from a public routine; a private generator
    with a constant seed is allowed outside the stochastic solvers only. On every path from a deterministic solver, loss, penalty,
    constraint or kernel, no draw from the global generator and no read of the clock happens."""

    def runs(self):
        return R.everything() + R.stochastic_combined()

    def setup(self, E, run):
        self.run = run
        self.stoch = "stoch" in run.tags or run.meta.get("cls") == "sample_batches"
        self.user = run.meta.get("cls") == "Trace"

    def private(self, node):
        """The generator created here is a fixed sequence."""
        args = [a for a in node.args] + [k.value for k in node.keywords] if isinstance(node, ast.Call) else []
        return bool(args) and all(isinstance(a, ast.Constant) and isinstance(a.value, int) and not isinstance(a.value, bool) for a in args)

    def on_random(self, E, st, node, d):
        if not E.recording or self.user:
            return
        q = d["name"]
        self.obligation("draw of random numbers", E, node)
        if q in PRIVATE:
            if self.stoch:
                self.report(E, node, "private", "a stochastic solver draws from a generator of its own (%s) instead of NumPy's global one" % q)
            return
        if q in SEED:
            return          # reported from the syntax tree
        if q in GLOBAL and not self.stoch:
            self.report(E, node, "draw", "a deterministic routine draws from NumPy's global generator (%s)" % q)

    def on_clock(self, E, st, node, d):
        if E.recording and not self.user:
            self.obligation("read of the clock", E, node)
            self.report(E, node, "clock", "the clock is read on the path of a solver, loss or operator")

    def on_libcall(self, E, st, node, d):
        if not E.recording:
            return
        q = d["name"]
        if q in STARTED:
            self.obligation("library routine with a random start", E, node)
            kw = d["kwargs"]
            given = {k for k, v in kw.items() if v.kind != "none"}
            if q.endswith("svds") and "solver" in given and kw["solver"].const == "propack" and given & {"rng", "random_state"}:
                return          # ARPACK restarts from numbers of its own even when v0 and rng are given
            if not given & set(STARTED[q]) and "**" not in kw:
                self.report(E, node, "random-start", "%s starts from random numbers that no seed controls" % q, func=self.run.name.split("[")[0])

    def whole(self, prog):
        for m in prog.modules.values():
            rel = m.path[len(prog.root) + 1:]
            imp = lint.imports(m.tree)
            for x in ast.walk(m.tree):
                if not isinstance(x, (ast.Attribute, ast.Name)) or isinstance(getattr(x, "_parent", None), ast.Attribute):
                    continue
                ch = lint.dotted(x)
                if ch is None or ch[0] not in imp or lint.shadowed(x, ch[0]) or isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                    continue
                q = ".".join([imp[ch[0]]] + ch[1:])
                if not (q.startswith(("numpy.random.",) + ENTROPY)):
                    continue
                self.obligation("generator named in the package")
                at = ("%s:%d" % (rel, x.lineno), lint.enclosing(x))
                if q in SEED:
                    self.report_at(*at, "reseed", "%s resets the caller's random state" % q, "")
                elif q in PRIVATE:
                    if not self.private(getattr(x, "_parent", None)):
                        self.report_at(*at, "unseeded", "%s is created without a constant seed" % q, "")
                elif q.startswith(ENTROPY):
                    self.report_at(*at, "other-generator", "%s is not NumPy's global generator" % q, "")

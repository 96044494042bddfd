"""Registry of analysed entry points and configurations."""
from .ops import *


def _r(name, build, *tags, **meta):
    r = Run(name, build, tags)
    r.meta = meta
    return r


FW_STEPS = ("backtracking", "DR", "sublinear", "callable")
SFW_VARIANTS = ("SAG", "SAGA", "MHK", "LF")


def solvers():
    out = []
    for v in ("vanilla", "pairwise"):
        for s in FW_STEPS:
            out.append(_r("minimize_frank_wolfe[%s,%s]" % (v, s), frank_wolfe(step=s, variant=v, lipschitz=(s == "DR")), "solver", "fw", "det", v, s))
    out.append(_r("minimize_frank_wolfe[backtracking,lipschitz]", frank_wolfe(lipschitz=True), "solver", "fw", "det", "vanilla", "backtracking"))
    for j in ("true", "false", "none", "2-point"):
        out.append(_r("minimize_frank_wolfe[jac=%s]" % j, frank_wolfe(jac=j), "solver", "fw", "det", "jac"))
        out.append(_r("minimize_proximal_gradient[jac=%s]" % j, prox_grad(jac=j), "solver", "pgd", "det", "jac"))
    for acc in (False, True):
        for s in (("backtracking", "callable") if not acc else ("backtracking",)):
            for p in (True, False):
                out.append(_r("minimize_proximal_gradient[%s%s%s]" % (s, ",accelerated" if acc else "", "" if p else ",prox=None"),
                              prox_grad(step=s, accelerated=acc, prox=p), "solver", "pgd", "det", "acc" if acc else "plain"))
    out.append(_r("minimize_proximal_gradient[accelerated,certificate]", prox_grad(accelerated=True, trace=True), "solver", "pgd", "det", "acc"))
    for ls in (True, False):
        for ss in (True, False):
            out.append(_r("minimize_three_split[line_search=%s,step_size=%s]" % (ls, "given" if ss else "None"),
                          three_split(step_size=ss, line_search=ls), "solver", "tos", "det", "ls" if ls else "nols"))
    out.append(_r("minimize_three_split[h_Lipschitz]", three_split(step_size=True, h_lip="sym"), "solver", "tos", "det", "ls"))
    out.append(_r("minimize_three_split[prox None]", three_split(step_size=True, prox=(False, False)), "solver", "tos", "det", "ls"))
    for ls in (True, False):
        for l in ("op", None):
            out.append(_r("minimize_primal_dual[line_search=%s,L=%s]" % (ls, l), primal_dual(line_search=ls, L_=l), "solver", "pdhg", "det", "ls" if ls else "nols"))
    out.append(_r("minimize_primal_dual[step_size2]", primal_dual(line_search=False, step_size2=True), "solver", "pdhg", "det", "nols"))
    out.append(_r("minimize_primal_dual[step_size2,line_search]", primal_dual(line_search=True, step_size2=True), "solver", "pdhg", "det", "ls"))
    out.append(_r("minimize_primal_dual[prox None]", primal_dual(prox=(False, False)), "solver", "pdhg", "det", "ls"))
    out += stochastic()
    return out


def stochastic():
    out = []
    for n in ("minimize_saga", "minimize_svrg"):
        for k in ("none", "user"):
            out.append(_r("%s[prox=%s]" % (n, k), stoch(n, (k,)), "solver", "stoch", "vr", n[9:], k))
    out.append(_r("minimize_vrtos[prox=none]", stoch("minimize_vrtos", ("none", "none")), "solver", "stoch", "vr", "vrtos", "none"))
    out.append(_r("minimize_vrtos[prox=user]", stoch("minimize_vrtos", ("user", "user")), "solver", "stoch", "vr", "vrtos", "user"))
    for v in SFW_VARIANTS:
        for b in (False, True):
            out.append(_r("minimize_sfw[%s%s]" % (v, ",batch" if b else ""), sfw(v, batch=b), "solver", "stoch", "sfw", v))
    for v in ("SAG", "SAGA"):
        out.append(_r("minimize_sfw[%s,DR]" % v, sfw(v, step="DR"), "solver", "stoch", "sfw", v, "DR"))
        out.append(_r("minimize_sfw[%s,pairwise]" % v, sfw(v, lmo_variant="pairwise"), "solver", "stoch", "sfw", v, "pairwise"))
        out.append(_r("minimize_sfw[%s,pairwise,DR]" % v, sfw(v, lmo_variant="pairwise", step="DR"), "solver", "stoch", "sfw", v, "pairwise", "DR"))
    out.append(_r("minimize_sfw[callable]", sfw(step="callable"), "solver", "stoch", "sfw", "SAGA"))
    return out


def stochastic_combined():
    """Stochastic solvers with the kernels of the library."""
    out = []
    for n in ("minimize_saga", "minimize_svrg"):
        for k in ("L1", "group", "fused1", "fused2"):
            out.append(_r("%s[prox=%s]" % (n, k), stoch(n, (k,)), "solver", "stoch", "vr", n[9:], k))
    for k in (("L1", "group"), ("fused1", "fused2"), ("group", "L1")):
        out.append(_r("minimize_vrtos[prox=%s/%s]" % k, stoch("minimize_vrtos", k), "solver", "stoch", "vr", "vrtos"))
    return out


def losses(fmts=("dense", "csr", "any", "none")):
    out = []
    for c in ("LogLoss", "SquareLoss", "HuberLoss"):
        for f in fmts:
            for ic in ((False, True) if c == "LogLoss" and f != "none" else (False,)):
                for w in ("call", "pair", "value", "deriv", "lipschitz", "max_lipschitz", "hess", "hess_trace"):
                    if c != "LogLoss" and w.startswith("hess"):
                        continue
                    if c == "HuberLoss" and w in ("deriv", "max_lipschitz"):
                        continue
                    out.append(_r("%s.%s[%s%s]" % (c, w, f, ",intercept" if ic else ""), loss_call(c, w, f, ic), "loss", w, c, f,
                                  "intercept" if ic else "plain", cls=c, what=w, fmt=f, icpt=ic))
    return out


PENALTIES = ("L1Norm", "GroupL1", "FusedLasso", "TraceNorm", "TotalVariation2D")
KERNELS = (("L1Norm", "prox_factory"), ("GroupL1", "prox_factory"), ("FusedLasso", "prox_1_factory"), ("FusedLasso", "prox_2_factory"))
CONSTRAINTS = (("LinfBall", ("prox",)), ("L2Ball", ("prox",)), ("L1Ball", ("call", "prox", "lmo", "lmo_pairwise")),
               ("SimplexConstraint", ("prox", "lmo")), ("TraceBall", ("call", "prox", "lmo")))


def penalties(xdt="f"):
    return [_r("%s.%s" % (c, w), penalty(c, w, xdt), "penalty", w, c, cls=c, what=w) for c in PENALTIES for w in ("call", "prox")]


def kernels():
    return [_r("%s.%s kernel" % (c, f), kernel(c, f), "kernel", c, cls=c, what="kernel") for c, f in KERNELS]


def constraints(xdt="f"):
    out = [_r("%s.%s" % (c, w), constraint(c, w, xdt), "constraint", w, c, cls=c, what=w) for c, ws in CONSTRAINTS for w in ws]
    out += [_r(n, projection(n, xdt), "constraint", "prox", cls=n, what="prox") for n in ("euclidean_proj_simplex", "euclidean_proj_l1ball")]
    return out


def tvs(xdt="f"):
    return [_r(n, tv(n, xdt), "tv", "prox", cls=n, what="prox") for n in ("prox_tv1d", "prox_tv1d_cols", "prox_tv1d_rows", "prox_tv2d")] + \
        [_r("tv2d_linear_operator", tv("tv2d_linear_operator"), "tv", cls="tv2d_linear_operator", what="op")]


def utils_():
    out = []
    for n, vs in (("fast_csr_vm", (None,)), ("fast_csr_mv", (None,)), ("sample_batches", (None,)), ("safe_sparse_add", ("dd", "ds", "sd", "ss")),
                  ("init_lipschitz", (None,)), ("parse_step_size", ("pair", "float", "adaptive", "callable")), ("get_max_lipschitz", ("logloss",)),
                  ("build_func_grad", ("callable", "true", "false", "none", "2-point")), ("Trace", ("f", "x"))):
        for v in vs:
            out.append(_r("%s%s" % (n, "" if v is None else "[%s]" % v), util(n, v), "util", n, cls=n, what=v))
    return out


def operators(xdt="f"):
    return penalties(xdt) + kernels() + constraints(xdt) + tvs(xdt)


def everything():
    return solvers() + losses() + operators() + utils_()


def having(runs, *tags):
    return [r for r in runs if all(t in r.tags for t in tags)]

"""Scenarios: entry points of the package with the configurations under which they are analysed."""
from .spec import *

X1, F1 = U(X=1), U(F=1)
GU = U(F=1, X=-1)
LU = U(F=1, X=-2)
SU = U(X=2, F=-1)


class Run:
    """One entry point under one configuration."""

    def __init__(self, name, build, tags=()):
        self.name, self.build, self.tags = name, build, frozenset(tags)


def vec(E, st, node, tag, term, unit, axes, deps, foreign=False, dt="f"):
    """A vector returned by a function of the user (its own object)."""
    T.KIND[term] = "a"
    if unit != TOP:
        E.tunit[term] = unit
    oid = ("U:" if foreign else "R:") + E.site(st, node, tag)
    if oid in st.heap:
        E._retire(st, oid)
    st.heap[oid] = Cell("arr", V("arr", term=term, unit=unit, axes=axes, dt=dt, deps=frozenset(deps)))
    return V("arr", objs=frozenset([oid]), deps=frozenset(deps))


def star_of(args, n):
    """extra positional arguments of a call of a user function"""
    return list(args[n:])


def check_unit(E, st, node, v, unit, what):
    c = L.cont(E, st, v)
    if c.unit != TOP and not E.units.unify(c.unit, unit):
        E.emit("unit", st, node, a=E.units.norm(c.unit), b=E.units.norm(unit), what=what)


def deps(E, st, *vs):
    return E.deps_of(st, list(vs))


def h_fun(pair, name="f"):
    """fun(x, *args): value, or (value, gradient) when pair."""
    def h(E, st, args, kwargs, node):
        x = args[0] if args else kwargs.get("x")
        E.emit("user", st, node, role="fun", x=x, extra=star_of(args, 1), kwargs=kwargs)
        if x is None:
            return [(st, vany())]
        t = E.term_of(st, x)
        d = deps(E, st, x) | {"f"}
        check_unit(E, st, node, x, X1, "evaluating the objective")
        v = V("num", term=T.mk("user", "f", t), unit=F1, dt="f", deps=d)
        T.KIND[v.term] = "s"
        E.tunit[v.term] = F1
        if not pair:
            return [(st, v)]
        g = vec(E, st, node, "grad", T.mk("user", "grad", t), GU, L.cont(E, st, x).axes, d, True)
        return [(st, V("tuple", items=(v, g), deps=d))]
    return h


def h_jac(E, st, args, kwargs, node):
    x = args[0] if args else None
    E.emit("user", st, node, role="jac", x=x, extra=star_of(args, 1), kwargs=kwargs)
    if x is None:
        return [(st, vany())]
    t = E.term_of(st, x)
    check_unit(E, st, node, x, X1, "evaluating the gradient")
    d = deps(E, st, x) | {"jac"}
    return [(st, vec(E, st, node, "grad", T.mk("user", "grad", t), GU, L.cont(E, st, x).axes, d, True))]


def h_fgrad(E, st, args, kwargs, node):
    """f_grad(x, return_gradient=True)"""
    x = args[0] if args else None
    rg = args[1] if len(args) > 1 else kwargs.get("return_gradient")
    E.emit("user", st, node, role="fgrad", x=x, extra=star_of(args, 2), kwargs=kwargs)
    if x is None:
        return [(st, vany())]
    t = E.term_of(st, x)
    check_unit(E, st, node, x, X1, "evaluating the objective")
    d = deps(E, st, x) | {"f"}
    v = V("num", term=T.mk("user", "f", t), unit=F1, dt="f", deps=d)
    T.KIND[v.term] = "s"
    E.tunit[v.term] = F1
    if rg is not None and rg.known and rg.const is False:
        return [(st, v)]
    g = vec(E, st, node, "grad", T.mk("user", "grad", t), GU, L.cont(E, st, x).axes, d, True)
    return [(st, V("tuple", items=(v, g), deps=d))]


def h_prox(name, unit=X1, sunit=SU, axes=None):
    def h(E, st, args, kwargs, node):
        x = args[0] if args else None
        s = args[1] if len(args) > 1 else None
        E.emit("user", st, node, role="prox", which=name, x=x, step=s, extra=star_of(args, 2), kwargs=kwargs)
        if x is None or s is None:
            return [(st, vany())]
        check_unit(E, st, node, x, unit, "passed to a proximal operator")
        check_unit(E, st, node, s, sunit, "passed as the step of a proximal operator")
        t = T.mk("user", name, E.term_of(st, x), E.term_of(st, s))
        return [(st, vec(E, st, node, name, t, unit, L.cont(E, st, x).axes, deps(E, st, x, s) | {name}))]
    return h


def h_lmo(E, st, args, kwargs, node):
    E.emit("user", st, node, role="lmo", args=args, kwargs=kwargs, u=args[0] if args else None, x=args[1] if len(args) > 1 else None)
    if len(args) < 2:
        return [(st, vany())]
    u, x = args[0], args[1]
    act = args[2] if len(args) > 2 else NONE
    tu, tx = E.term_of(st, u), E.term_of(st, x)
    check_unit(E, st, node, x, X1, "passed to the oracle")
    d = deps(E, st, u, x) | {"lmo"}
    dr = vec(E, st, node, "dir", T.mk("user", "lmo", tu, tx), X1, L.cont(E, st, x).axes, d)
    fwt, awt, mst = [T.mk("user", n, tu, tx) for n in ("fw_vertex", "away_vertex", "max_step")]
    T.KIND[mst] = "s"
    ms = V("num", term=mst, unit=ONE, dt="f", rng=(0, INF), deps=d)
    return [(st, V("tuple", items=(dr, V("any", term=fwt, deps=d), V("any", term=awt, deps=d), ms), deps=d))]


def h_callback(E, st, args, kwargs, node):
    E.emit("callback", st, node, args=args, kwargs=kwargs)
    n = st.ts.get("_ncb", 0)
    t = E.fresh(st, node, "cb")
    return [(st, V("any", term=t, deps=frozenset(["callback"])))]


def h_step(unit, rng=(0, INF)):
    def h(E, st, args, kwargs, node):
        E.emit("user", st, node, role="step", args=args, kwargs=kwargs, extra=args[1:])
        t = E.fresh(st, node, "step")
        T.KIND[t] = "s"
        return [(st, V("num", term=t, unit=unit, dt="f", rng=rng, deps=frozenset(["stepfun"])))]
    return h


def opt(v):
    return None if v is None else v


def jac_of(kind):
    return {"callable": user("jac", h_jac), "true": vbool(True), "false": vbool(False), "none": NONE,
            "2-point": vstr("2-point"), "bad": vstr("no such method")}[kind]


def call(E, st, qual, args, kwargs):
    f = E.func(qual)
    return E.call_value(st, f, args, kwargs, NODE)


# ---------------------------------------------------------------- deterministic solvers
def x0_param(E, st, dt="f", kind="arr"):
    dt, kind = getattr(E, "x0_as", (dt, kind))
    if kind == "list":
        o = "P:x0"
        el = V("num", term=T.mk("load", T.sym("x0"), T.sym("k")), unit=X1, dt=dt, deps=frozenset(["x0"]))
        st.heap[o] = Cell("list", elem=el, v=None)
        return V("list", objs=frozenset([o]), term=T.sym("x0"), deps=frozenset(["x0"]), unit=X1)
    return param(E, st, "x0", ("F",), X1, dt=dt)


def frank_wolfe(jac="callable", step="backtracking", variant="vanilla", lipschitz=False, callback=True, x0="f", budget=(0, INF), lmo=None, extra=None, tolr=None):
    def build(E):
        st = E.start(E.prog.modules["copt.frank_wolfe"])
        fun = user("fun", h_fun(jac in ("true", "2-point")))
        kw = {}
        kw["jac"] = jac_of(jac)
        kw["step"] = user("step", h_step(ONE)) if step == "callable" else vstr(step)
        kw["variant"] = vstr(variant)
        if variant == "pairwise":
            kw["x0_rep"] = V("any", term=T.sym("x0_rep"), deps=frozenset(["x0_rep"]))
        if lipschitz:
            kw["lipschitz"] = scalar("lipschitz", LU, rng=(0, INF))
        kw["args"] = starargs("args")
        kw["max_iter"] = integer("max_iter", budget)
        kw["tol"] = scalar("tol", F1, rng=(0, INF))
        kw["eps"] = scalar("eps", X1, rng=(0, INF))
        if callback:
            kw["callback"] = user("callback", h_callback)
        if extra:
            kw.update(extra)
        x = x0_param(E, st, dt="i" if x0 == "i" else "f", kind="list" if x0 == "list" else "arr")
        lm = user("lmo", h_lmo) if lmo is None else lmo(E, st)
        return call(E, st, "copt.frank_wolfe.minimize_frank_wolfe", [fun, x, lm], kw)
    return build


def prox_grad(jac="callable", step="backtracking", accelerated=False, callback=True, prox=True, x0="f", budget=(0, INF), trace=None, extra=None):
    def build(E):
        st = E.start(E.prog.modules["copt.proximal_gradient"])
        fun = user("fun", h_fun(jac in ("true", "2-point")))
        kw = {"jac": jac_of(jac), "tol": scalar("tol", GU, rng=(0, INF)), "max_iter": integer("max_iter", budget), "args": starargs("args"),
              "eps": scalar("eps", X1, rng=(0, INF)), "max_iter_backtracking": integer("max_iter_backtracking", (1, INF)),
              "backtracking_factor": scalar("backtracking_factor", ONE, rng=(0, 1)), "accelerated": vbool(accelerated)}
        kw["step"] = user("step", h_step(SU)) if step == "callable" else vstr(step)
        if prox:
            kw["prox"] = user("prox", h_prox("prox"))
        if callback:
            kw["callback"] = user("callback", h_callback)
        if trace is not None:
            kw["trace_certificate"] = vbool(trace)
        if extra:
            kw.update(extra)
        x = x0_param(E, st, dt="i" if x0 == "i" else "f", kind="list" if x0 == "list" else "arr")
        return call(E, st, "copt.proximal_gradient.minimize_proximal_gradient", [fun, x], kw)
    return build


def three_split(step_size=False, line_search=True, h_lip=None, callback=True, prox=(True, True), x0="f", budget=(0, INF), extra=None):
    def build(E):
        st = E.start(E.prog.modules["copt.splitting"])
        kw = {"tol": scalar("tol", GU, rng=(0, INF)), "max_iter": integer("max_iter", budget), "line_search": vbool(line_search),
              "max_iter_backtracking": integer("max_iter_backtracking", (1, INF)), "args_prox": starargs("args_prox"),
              "backtracking_factor": scalar("backtracking_factor", ONE, rng=(0, 1))}
        for k in (0, 1):
            if prox[k]:
                kw["prox_%d" % (k + 1)] = user("prox_%d" % (k + 1), h_prox("prox_%d" % (k + 1)))
        if step_size:
            kw["step_size"] = scalar("step_size", SU, rng=(0, INF))
        if h_lip is not None:
            kw["h_Lipschitz"] = scalar("h_Lipschitz", GU, rng=(0, INF)) if h_lip == "sym" else vnum(h_lip)
        if callback:
            kw["callback"] = user("callback", h_callback)
        if extra:
            kw.update(extra)
        x = x0_param(E, st, dt="i" if x0 == "i" else "f", kind="list" if x0 == "list" else "arr")
        return call(E, st, "copt.splitting.minimize_three_split", [user("f_grad", h_fgrad), x], kw)
    return build


def primal_dual(line_search=True, step_size2=False, L_="op", callback=True, prox=(True, True), x0="f", budget=(0, INF), extra=None):
    # the dual variable of h has the unit of the gradient taken through L^T (L has unit W/X)
    WU = U(W=1)
    def build(E):
        # the dual variable starts at L x and the two step sizes have a fixed ratio, so the only rescaling the method is
        # covariant under is x -> a x, L x -> a L x, f -> a^2 f
        E.units.sub["F"] = U(X=2)
        E.units.sub["W"] = X1
        st = E.start(E.prog.modules["copt.splitting"])
        kw = {"max_iter": integer("max_iter", budget), "line_search": vbool(line_search), "tol": scalar("tol", POLY, rng=(0, INF)),
              "max_iter_ls": integer("max_iter_ls", (1, INF))}
        s2 = SU
        kw["step_size"] = scalar("step_size", SU, rng=(0, INF))
        if L_ == "op":
            kw["L"] = param(E, st, "L", ("D", "F"), U(W=1, X=-1))
            ysu = U(F=1, W=-1)          # unit of the dual variable
            tau = U(F=1, W=-2)          # dual step: dual unit per unit of L x
            yax = ("D",)
        else:
            ysu = GU
            tau = LU
            yax = ("F",)
        if step_size2:
            kw["step_size2"] = scalar("step_size2", tau, rng=(0, INF))
        if prox[0]:
            kw["prox_1"] = user("prox_1", h_prox("prox_1"))
        if prox[1]:
            # prox of h at a point of the range of L, with step the inverse of the dual step
            wu = WU if L_ == "op" else X1
            kw["prox_2"] = user("prox_2", h_prox("prox_2", wu, E.units.pow(tau, -1)))
        if callback:
            kw["callback"] = user("callback", h_callback)
        if extra:
            kw.update(extra)
        x = x0_param(E, st, dt="i" if x0 == "i" else "f", kind="list" if x0 == "list" else "arr")
        return call(E, st, "copt.splitting.minimize_primal_dual", [user("f_grad", h_fgrad), x], kw)
    return build


# ---------------------------------------------------------------- stochastic solvers
ZU = U(Z=1)


def h_deriv(unit=None, zunit=ZU):
    """Scalar derivative of the loss, applied elementwise."""
    unit = unit or U(F=1, Z=-1)

    def h(E, st, args, kwargs, node):
        E.emit("user", st, node, role="deriv", args=args, kwargs=kwargs, x=args[0] if args else None, extra=args[2:])
        if len(args) < 2:
            return [(st, vany())]
        p, y = args[0], args[1]
        check_unit(E, st, node, p, zunit, "passed to the derivative of the loss")
        check_unit(E, st, node, y, zunit, "passed to the derivative of the loss")
        cp, cy = L.cont(E, st, p), L.cont(E, st, y)
        if cp.axes is not None and cy.axes is not None and len(cp.axes) == 1 and len(cy.axes) == 1:
            L.bcast(E, st, node, cp, cy, "the derivative of the loss")
        t = T.mk("user", "f_deriv", E.term_of(st, p), E.term_of(st, y))
        return [(st, vec(E, st, node, "fd", t, unit, cp.axes, deps(E, st, p, y) | {"f_deriv"}))]
    return h


def h_kernel(name, sunit=SU):
    """Sparse proximal kernel of the user: kernel(x, i, indices, indptr, d, step)."""
    def h(E, st, args, kwargs, node):
        E.emit("user", st, node, role="kernel", which=name, args=args, kwargs=kwargs, x=args[0] if args else None, extra=args[6:])
        if len(args) != 6:
            return [(st, NONE)]
        x, i, indices, indptr, d, s = args
        check_unit(E, st, node, x, X1, "passed to a proximal kernel")
        check_unit(E, st, node, s, sunit, "passed as the step of a proximal kernel")
        c = L.cont(E, st, x)
        dd = deps(E, st, *args) | {name}
        t = T.mk("user", name, *[E.term_of(st, a) for a in args])
        T.KIND[t] = "a"
        if x.objs:
            E.write(st, x, c.r(term=t, deps=c.deps | dd, rng=None), node, "kernel", True)
        return [(st, NONE)]
    return h


def data(E, st, fmt="csr", ints=False, aunit=None, bunit=None, brng=None):
    au = aunit if aunit is not None else U(Z=1, X=-1)
    dt = "i" if ints or getattr(E, "int_data", False) else "f"
    if fmt == "dense":
        A = param(E, st, "A", ("S", "F"), au, dt=dt)
    else:
        A = sparam(E, st, "A", ("S", "F"), au, fmt=None if fmt == "any" else fmt, dt=dt)
    b = param(E, st, "b", ("S",), bunit if bunit is not None else ZU, rng=brng, dt=dt)
    return A, b


def kernel_arg(E, st, kind, which, module):
    """Proximal argument of a stochastic solver."""
    node = ast.parse("\n" * int(which) + "0").body[0]
    if kind == "none":
        return [(st, None)]
    if kind == "user":
        B = sparam(E, st, "blocks_" + which, ("B" + which, "F"), TOP, fmt="csr", pos="F")
        return [(st, V("tuple", items=(user("kernel_" + which, h_kernel("kernel_" + which)), B)))]
    if kind == "bare":
        return [(st, user("kernel_" + which, h_kernel("kernel_" + which)))]
    al = scalar("alpha_" + which, U(F=1, X=-1), rng=(0, INF))
    n = size(E, "F")
    if kind == "L1":
        args, cls, meth = [al], "L1Norm", "prox_factory"
    elif kind == "group":
        args, cls, meth = [al, groups(E, st)], "GroupL1", "prox_factory"
    elif kind in ("fused1", "fused2"):
        args, cls, meth = [al], "FusedLasso", "prox_%s_factory" % kind[-1]
    out = []
    for s, o in E.call_value(st, E.func("copt.penalty." + cls), args, {}, node):
        for s2, m in E.getattr(s, o, meth, node):
            out += E.call_value(s2, m, [n], {}, node)
    return out


def groups(E, st):
    """Groups of features: a list of sorted index arrays."""
    g = "P:groups[*]"
    T.KIND[T.sym("g")] = "a"
    st.heap[g] = Cell("arr", V("arr", term=T.sym("g"), unit=TOP, dt="i", axes=("G",), idx="F", deps=frozenset(["groups"]), rng=(0, INF)))
    o = "P:groups"
    st.heap[o] = Cell("list", elem=V("arr", objs=frozenset([g]), deps=frozenset(["groups"])))
    return V("list", objs=frozenset([o]), term=T.sym("groups"), deps=frozenset(["groups"]))


def stoch(name, prox=("none",), fmt="csr", callback=True, x0="f", budget=(0, INF), alpha=True, extra=None):
    """minimize_saga / minimize_svrg (one kernel) and minimize_vrtos (two)."""
    def build(E):
        st = E.start(E.prog.modules["copt.randomized"])
        A, b = data(E, st, fmt)
        kw = {"step_size": scalar("step_size", SU, rng=(0, INF)), "max_iter": integer("max_iter", budget), "tol": scalar("tol", X1, rng=(0, INF))}
        if alpha:
            kw["alpha"] = scalar("alpha", LU, rng=(0, INF))
        if callback:
            kw["callback"] = user("callback", h_callback)
        names = ["prox"] if name != "minimize_vrtos" else ["prox_1", "prox_2"]
        sts = [(st, kw)]
        for n, k, w in zip(names, prox, ("1", "2")):
            nx = []
            for s, q in sts:
                for s2, v in kernel_arg(E, s, k, w, None):
                    q2 = dict(q)
                    if v is not None:
                        q2[n] = v
                    nx.append((s2, q2))
            sts = nx
        out = []
        for s, q in sts:
            if extra:
                q.update(extra)
            x = x0_param(E, s, dt="i" if x0 == "i" else "f", kind="list" if x0 == "list" else "arr")
            out += call(E, s, "copt.randomized." + name, [user("f_deriv", h_deriv()), A, b, x], q)
        return out
    return build


def sfw(variant="SAGA", lmo_variant="vanilla", step="sublinear", batch=False, lipschitz=None, fmt="csr", callback=True, x0="f", budget=(0, INF), lmo=None, extra=None):
    def build(E):
        st = E.start(E.prog.modules["copt.randomized"])
        A, b = data(E, st, fmt)
        kw = {"variant": vstr(variant), "lmo_variant": vstr(lmo_variant), "max_iter": integer("max_iter", budget), "tol": scalar("tol", X1, rng=(0, INF))}
        if step == "callable":
            kw["step_size"] = user("step", h_pair_step)
        elif step is not None:
            kw["step_size"] = vstr(step)
        if batch:
            kw["batch_size"] = integer("batch_size", (2, INF))
        if lipschitz or (lipschitz is None and step == "DR"):
            kw["lipschitz"] = scalar("lipschitz", LU, rng=(0, INF))
        if lmo_variant == "pairwise":
            kw["x0_rep"] = V("any", term=T.sym("x0_rep"), deps=frozenset(["x0_rep"]))
        if callback:
            kw["callback"] = user("callback", h_callback)
        if extra:
            kw.update(extra)
        x = x0_param(E, st, dt="i" if x0 == "i" else "f", kind="list" if x0 == "list" else "arr")
        lm = user("lmo", h_lmo) if lmo is None else lmo(E, st)
        return call(E, st, "copt.randomized.minimize_sfw", [user("f_deriv", h_deriv()), A, b, x, lm], kw)
    return build


def h_pair_step(E, st, args, kwargs, node):
    E.emit("user", st, node, role="step", args=args, kwargs=kwargs, extra=args[1:])
    r = []
    for k in ("a", "b"):
        t = E.fresh(st, node, "step" + k)
        T.KIND[t] = "s"
        r.append(V("num", term=t, unit=ONE, dt="f", rng=(0, 1), deps=frozenset(["stepfun"])))
    return [(st, V("tuple", items=tuple(r)))]

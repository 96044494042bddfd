"""Scenarios for losses, penalties, constraints, total variation and helpers."""
from .scen import *

AU = U(F=1, X=-1)


def invoke(E, st, obj, path, mk):
    """Call methods in sequence: obj.path[0](*mk0).path[1]...; mk(E, st) -> (args, kwargs)."""
    out = []
    for s, m in E.getattr(st, obj, path, NODE):
        a, k = mk(E, s)
        out += E.call_value(s, m, a, k, NODE)
    return out


def construct(E, st, cls, args, kw=None):
    return E.call_value(st, E.func(cls), args, kw or {}, NODE)


# ---------------------------------------------------------------- losses
def loss_units(cls, icpt):
    if cls == "LogLoss":
        if icpt:
            return dict(A=ONE, b=ONE, al=ONE, x=ONE, F=ONE, Z=ONE)
        return dict(A=U(X=-1), b=ONE, al=U(X=-2), x=X1, F=ONE, Z=ONE)
    return dict(A=U(Z=1, X=-1), b=ZU, al=U(Z=2, X=-2), x=X1, F=U(Z=2), Z=ZU)


def make_loss(E, cls, fmt, icpt=False):
    st = E.start(E.prog.modules["copt.loss"])
    u = loss_units(cls, icpt)
    brng = (0, 1) if cls == "LogLoss" else None
    if fmt == "none":
        A = NONE
        b = param(E, st, "b", ("F",), u["b"], rng=brng)
        u = dict(u)
        u["x"] = u["Z"]
        if cls != "LogLoss":
            u["al"] = ONE
        else:
            u["al"] = ONE
    else:
        A, b = data(E, st, fmt, aunit=u["A"], bunit=u["b"], brng=brng)
    al = scalar("alpha", u["al"], rng=(0, INF))
    kw = {}
    if cls == "HuberLoss":
        kw["delta"] = scalar("delta", u["Z"], rng=(0, INF))
    out = []
    for s, o in construct(E, st, "copt.loss." + cls, [A, b, al], kw):
        if icpt:
            for ob in o.objs:
                s.heap[ob].attrs["intercept"] = vbool(True)
        out.append((s, o, u))
    return out


def loss_call(cls, what, fmt="dense", icpt=False, xdt="f"):
    """what: call, pair, value, deriv, lipschitz, max_lipschitz, hess, hess_trace"""
    def build(E):
        res = []
        E.expect = loss_expect(cls, what, icpt, fmt)
        for s, o, u in make_loss(E, cls, fmt, icpt):
            fx = "F+1" if icpt else "F"
            x = param(E, s, "x", (fx,), u["x"], dt=getattr(E, "x0_as", (xdt,))[0])
            if what == "call":
                res += E.call_value(s, o, [x], {}, NODE)
            elif what in ("pair", "value"):
                for s2, m in E.getattr(s, o, "f_grad", NODE):
                    res += E.call_value(s2, m, [x], {} if what == "pair" else {"return_gradient": vbool(False)}, NODE)
            elif what == "deriv":
                for s2, m in E.getattr(s, o, "partial_deriv", NODE):
                    p = param(E, s2, "p", ("S",), u["Z"], rng=None)
                    y = param(E, s2, "y", ("S",), u["Z"], rng=(0, 1) if cls == "LogLoss" else None, dt="i" if getattr(E, "int_data", False) else "f")
                    res += E.call_value(s2, m, [p, y], {}, NODE)
            elif what in ("lipschitz", "max_lipschitz"):
                res += E.getattr(s, o, what, NODE)
            else:
                for s2, m in E.getattr(s, o, "hessian_mv" if what == "hess" else "hessian_trace", NODE):
                    for s3, h in E.call_value(s2, m, [x], {}, NODE):
                        d = param(E, s3, "s", (fx,), u["x"])
                        res += E.call_value(s3, h, [d], {}, NODE)
        return res
    return build


def loss_expect(cls, what, icpt, fmt):
    u = loss_units(cls, icpt)
    if fmt == "none":
        u = dict(u)
        u["x"] = u["Z"]
    f, x, z = u["F"], u["x"], u["Z"]
    fx = "F+1" if icpt else "F"
    return dict(cls=cls, what=what, F=f, X=x, Z=z, axes=(fx,))


# ---------------------------------------------------------------- penalties
def pen_args(E, st, cls):
    al = scalar("alpha", AU, rng=(0, INF))
    if cls == "GroupL1":
        return [al, groups(E, st)], {}
    if cls in ("TraceNorm", "TotalVariation2D"):
        sh = V("tuple", items=(size(E, "R"), size(E, "C")))
        kw = {}
        if cls == "TotalVariation2D":
            kw = {"max_iter": integer("max_iter", (1, INF)), "tol": scalar("tol", X1, rng=(0, INF))}
        return [al, sh], kw
    return [al], {}


def pen_axes(cls):
    return ("C*R",) if cls in ("TraceNorm", "TotalVariation2D", "TraceBall") else ("F",)


def penalty(cls, what, xdt="f"):
    def build(E):
        st = E.start(E.prog.modules["copt.penalty"])
        a, k = pen_args(E, st, cls)
        res = []
        for s, o in construct(E, st, "copt.penalty." + cls, a, k):
            x = param(E, s, "x", pen_axes(cls), X1, dt=xdt)
            if what == "call":
                res += E.call_value(s, o, [x], {}, NODE)
            else:
                for s2, m in E.getattr(s, o, "prox", NODE):
                    res += E.call_value(s2, m, [x, scalar("step_size", SU, rng=(0, INF))], {}, NODE)
        return res
    return build


def kernel(cls, factory, build_only=False):
    """A sparse kernel of the library called as the stochastic solvers call it."""
    def build(E):
        st = E.start(E.prog.modules["copt.penalty"])
        a, k = pen_args(E, st, cls)
        res = []
        for s, o in construct(E, st, "copt.penalty." + cls, a, k):
            for s2, m in E.getattr(s, o, factory, NODE):
                for s3, pr in E.call_value(s2, m, [size(E, "F")], {}, NODE):
                    if build_only:
                        res.append((s3, pr))
                        continue
                    its = E.items_of(s3, pr)
                    if its is None or len(its) != 2:
                        E.emit("protocol", s3, NODE, what="%s.%s must return a kernel and its blocks" % (cls, factory))
                        continue
                    kern, B = its
                    c = L.cont(E, s3, B)
                    bax = c.axes[0] if c.axes else "B"
                    x = param(E, s3, "x", ("F",), X1)
                    E.kernel_x = x
                    i = scalar("i", ONE, "i", rng=(0, INF), idx="S")
                    ind = param(E, s3, "bs_indices", ("P:bs",), dt="i", idx=bax, rng=(0, INF))
                    iptr = param(E, s3, "bs_indptr", ("S+1",), dt="i", idx="P:bs", rng=(0, INF))
                    d = param(E, s3, "d", (bax,), ONE, rng=(0, INF))
                    res += E.call_value(s3, kern, [x, i, ind, iptr, d, scalar("step_size", SU, rng=(0, INF))], {}, NODE)
        return res
    return build


# ---------------------------------------------------------------- constraints
def con_args(E, cls):
    al = scalar("alpha", X1, rng=(0, INF))
    if cls == "TraceBall":
        return [al, V("tuple", items=(size(E, "R"), size(E, "C")))]
    return [al]


def constraint(cls, what, xdt="f", with_step=True, kind="arr"):
    def build(E):
        st = E.start(E.prog.modules["copt.constraint"])
        res = []
        for s, o in construct(E, st, "copt.constraint." + cls, con_args(E, cls)):
            ax = pen_axes(cls)
            x = param(E, s, "x", ax, X1, dt=xdt)
            if what == "call":
                res += E.call_value(s, o, [x], {}, NODE)
            elif what == "prox":
                for s2, m in E.getattr(s, o, "prox", NODE):
                    res += E.call_value(s2, m, [x, scalar("step_size", SU, rng=(0, INF))], {}, NODE)
            else:
                u = param(E, s, "u", ax, GU)
                if what == "lmo_pairwise":
                    av = vertex_dict(E, s)
                else:
                    av = NONE
                for s2, m in E.getattr(s, o, what, NODE):
                    res += E.call_value(s2, m, [u, x, av], {}, NODE)
        return res
    return build


def vertex_dict(E, st):
    """Active set: mapping from (sign, index) to weight."""
    o = "P:active_set"
    sg = V("num", term=T.sym("v_sign"), unit=ONE, dt="f", rng=(-1, 1), deps=frozenset(["active_set"]))
    ix = V("num", term=T.sym("v_idx"), unit=ONE, dt="i", rng=(0, INF), idx="F", deps=frozenset(["active_set"]))
    T.KIND[sg.term] = T.KIND[ix.term] = "s"
    w = V("num", term=T.sym("weight"), unit=ONE, dt="f", rng=(0, 1), deps=frozenset(["active_set"]))
    T.KIND[w.term] = "s"
    st.heap[o] = Cell("dict", items={}, extra={"keyv": V("tuple", items=(sg, ix)), "valv": w, "open": True, "default": vnum(0.0)})
    return V("dict", objs=frozenset([o]), deps=frozenset(["active_set"]))


def projection(name, xdt="f"):
    def build(E):
        st = E.start(E.prog.modules["copt.constraint"])
        v = param(E, st, "v", ("F",), X1, dt=xdt)
        return call(E, st, "copt.constraint." + name, [v, scalar("s", X1, rng=(0, INF))], {})
    return build


# ---------------------------------------------------------------- total variation
def tv(name, xdt="f"):
    def build(E):
        st = E.start(E.prog.modules["copt.tv_prox"])
        s = scalar("step_size", X1, rng=(0, INF))       # strength times step, in units of the variable
        n, m = size(E, "R"), size(E, "C")
        if name == "prox_tv1d":
            return call(E, st, "copt.tv_prox.prox_tv1d", [param(E, st, "w", ("F",), X1, dt=xdt), s], {})
        if name in ("prox_tv1d_cols", "prox_tv1d_rows"):
            return call(E, st, "copt.tv_prox." + name, [s, param(E, st, "a", ("C*R",), X1, dt=xdt), n, m], {})
        if name == "prox_tv2d":
            return call(E, st, "copt.tv_prox." + name, [param(E, st, "w", ("C*R",), X1, dt=xdt), s, n, m],
                        {"max_iter": integer("max_iter", (0, INF)), "tol": scalar("tol", X1, rng=(0, INF))})
        return call(E, st, "copt.tv_prox." + name, [n, m], {})
    return build


# ---------------------------------------------------------------- helpers
def util(name, variant=None):
    def build(E):
        st = E.start(E.prog.modules["copt.utils"])
        q = "copt.utils." + name
        if name in ("fast_csr_vm", "fast_csr_mv"):
            A = sparam(E, st, "A", ("S", "F"), U(Z=1, X=-1), fmt="csr")
            pt = {}
            for p in ("data", "indptr", "indices"):
                pt[p] = L.sp_part(E, st, A, p, NODE)
            idx = param(E, st, "idx", ("K",), dt="i", idx="S", rng=(0, INF))
            if name == "fast_csr_vm":
                x = param(E, st, "x", ("K",), U(F=1, Z=-1))
                return call(E, st, q, [x, pt["data"], pt["indptr"], pt["indices"], size(E, "F"), idx], {})
            x = param(E, st, "x", ("F",), X1)
            return call(E, st, q, [pt["data"], pt["indptr"], pt["indices"], x, idx], {})
        if name == "sample_batches":
            return call(E, st, q, [size(E, "S"), integer("n_batches"), integer("batch_size")], {})
        if name == "safe_sparse_add":
            a = sparam(E, st, "a", ("1", "F"), X1) if variant[0] == "s" else param(E, st, "a", ("F",), X1)
            b = sparam(E, st, "b", ("1", "F"), X1) if variant[1] == "s" else param(E, st, "b", ("F",), X1)
            return call(E, st, q, [a, b], {})
        if name == "init_lipschitz":
            return call(E, st, q, [user("f_grad", h_fgrad), x0_param(E, st)], {})
        if name == "parse_step_size":
            v = {"pair": V("tuple", items=(scalar("step", SU), vstr("adaptive"))), "float": scalar("step", SU),
                 "adaptive": vstr("adaptive"), "callable": user("step", h_step(SU)), "bad": vstr("no such rule")}[variant]
            return call(E, st, q, [v], {})
        if name == "get_max_lipschitz":
            A, b = data(E, st, "csr")
            return call(E, st, q, [A, vstr(variant)], {"alpha": scalar("alpha", U(Z=2, X=-2))})
        if name == "build_func_grad":
            fun = user("fun", h_fun(variant in ("true", "2-point")))
            res = []
            for s, g in call(E, st, q, [jac_of(variant), fun, starargs("args"), scalar("eps", X1, rng=(0, INF))], {}):
                res += E.call_value(s, g, [x0_param(E, s)], {}, NODE)
            return res
        if name == "Trace":
            res = []
            a = [user("f", h_fun(False))] if variant == "f" else []
            for s, o in construct(E, st, "copt.utils.Trace", a, {"freq": integer("freq")}):
                x = param(E, s, "x", ("F",), X1)
                d = V("dict", objs=frozenset(["P:locals"]))
                s.heap["P:locals"] = Cell("dict", items={T.const("x"): x, T.const("step_size"): scalar("step_size", SU)})
                for s2, _ in E.call_value(s, o, [d], {}, NODE):
                    res += E.call_value(s2, o, [d], {}, NODE)
            return res
        raise KeyError(name)
    return build

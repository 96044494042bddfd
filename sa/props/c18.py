from ..solver import *
from .. import linear as LN
from .. import ops as O
from .c20 import Check as Oracles

NEG, ZERO, POS = -1, 0, 1
ALL = frozenset([NEG, ZERO, POS])


class Check(Prop):
    id = "C18"
    technique = "symbolic effect analysis of the active-set dictionary along every path of an iteration, and of the representations returned by the oracles"
    rule = """In pairwise mode, on every path of one iteration: the sum of the changes of the weights is plus the step for the Frank-Wolfe
    vertex and minus the step for the away vertex the oracle returned, where the step is the coefficient the direction has in the change of
    the iterate; a vertex is deleted only where its weight is known to be zero, kept only where it is known not to be zero, and never
    left with a weight that may be negative; no deleted key is read through the defaulting index. Before the first oracle call the active
    set holds exactly x0_rep with weight one. The representations returned by the library's oracles name the vertices in the
    direction they return, and the pairwise oracle's maximum step is the weight of its away vertex."""

    def runs(self):
        cb = {"callback": NONE}
        out = [r for r in tested_runs(callback=cb) if "pairwise" in r.name]
        for cls, m in (("L1Ball", "lmo"), ("L1Ball", "lmo_pairwise"), ("SimplexConstraint", "lmo")):
            out.append(R._r("%s.%s" % (cls, m), O.constraint(cls, m), cls=cls, what=m))
        return out

    def setup(self, E, run):
        self.run = run
        self.cls = run.meta.get("cls")
        self.fid = None

    # ------------------------------------------------------------ bookkeeping in the solvers
    def on_enter(self, E, st, node, d):
        if self.cls is None and self.fid is None and d["fn"].name.startswith("minimize_"):
            self.fid = d["fid"]
            st.ts["moves"] = ()

    def items(self, st, d):
        if len(d["d"].objs) != 1:
            return None
        c = st.heap.get(next(iter(d["d"].objs)))
        return c.items if c is not None and isinstance(c.items, dict) else None

    def relevant(self, d):
        return self.fid is not None and d["key"] is not None and d["key"].op != "const"

    def on_dict_store(self, E, st, node, d):
        if not self.relevant(d):
            return
        its = self.items(st, d)
        v = d["v"].term if d["v"].kind == "num" else None
        k = d["key"]
        mv = st.ts.get("moves")
        if its is None or v is None or mv is None or len(mv) > 12:
            st.ts["moves"] = None
            return
        cur = its.get(k)
        base = T.poly(cur.term) if cur is not None and cur.term is not None else {}
        st.ts["moves"] = mv + (("add", k, T.poly_to_term(LN.minus(T.poly(v), base)), T._canon(v), cur is not None),)

    def on_dict_del(self, E, st, node, d):
        if not self.relevant(d):
            return
        mv = st.ts.get("moves")
        its = self.items(st, d)
        cur = its.get(d["key"]) if its is not None else None
        if mv is not None:
            st.ts["moves"] = mv + (("del", d["key"], None, T._canon(cur.term) if cur is not None and cur.term is not None else None, True),)

    def on_dict_reinsert(self, E, st, node, d):
        if self.fid is not None and E.recording:
            self.obligation("no deleted vertex is read through the defaulting index", E, node)
            self.report(E, node, "reinserted", "the weight of a deleted vertex is read with [], which inserts it again with weight zero")

    def on_mutate(self, E, st, node, d):
        if self.fid is not None and d.get("how", "").startswith("dictionary .") and d["how"].split(".")[1] in ("update", "clear", "popitem", "setdefault"):
            if any("ddict" in o for o in d["objs"]):
                st.ts["moves"] = None

    def on_branch(self, E, st, node, d):
        v = d["v"]
        if self.fid is None or v.kind != "num" or v.term is None or not st.ts.get("moves"):
            return
        lits = list(implied(v.term, d["pol"]))
        t = v.term
        pol = d["pol"]
        while t.op == "not":
            t, pol = t.args[0], not pol
        if t.op in ("eq", "ne") and len(t.args) == 2 and not lits or t.op == "ne":
            lits = [("eq" if pol == (t.op == "eq") else "ne", t.args[0], t.args[1])]
        for op, a, b in lits:
            self.lit(st, op, T.poly(a), T.poly(b))

    def lit(self, st, op, a, b):
        D = LN.minus(a, b)
        if len(D) <= 8 and any(T.contains(t, weighty) for m in D for t, _ in m):
            ls = st.ts.get("lits") or frozenset()
            if len(ls) < 12:
                st.ts["lits"] = ls | {(op, T.poly_to_term(D))}

    def on_user(self, E, st, node, d):
        if d["role"] != "lmo" or self.fid is None:
            return
        if len(d["args"]) < 2:
            return
        tu, tx = E.term_of(st, d["u"]), E.term_of(st, d["x"])
        mv = st.ts.get("moves")
        if "call" not in st.ts and mv is not None and E.recording:
            self.obligation("the active set starts as the representation of x0", E, node)
            if T.poly(tx) == T.poly(T.sym("x0")):
                init = [(k, T.poly(dl)) for kind, k, dl, v, known in mv if kind == "add"]
                if init != [(T.sym("x0_rep"), {(): 1})]:
                    self.report(E, node, "initial", "before the first step the active set is %s instead of {x0_rep: 1}" % (
                        "{%s}" % ", ".join("%s: %s" % (T.show(k, 2), LN.show(p)) for k, p in init)))
        if E.recording and len(d["args"]) > 2 and d["args"][2].kind == "none":
            self.report(E, node, "not-passed", "the oracle is not given the active set")
        st.ts["moves"] = ()
        st.ts.pop("lits", None)
        st.ts["call"] = (tu, tx)
        mine = [l for l in E.loops if l.startswith(self.fid + ":L")]
        st.ts["loop"] = mine[-1] if mine else None
        fr = st.frames.get(self.fid, {})
        xn = [n for n, v in fr.items() if getattr(v, "kind", None) == "arr" and v.objs and v.objs == d["x"].objs]
        st.ts["xname"] = xn[0] if xn else None

    def on_body_end(self, E, st, node, d):
        if self.fid is None or "call" not in st.ts or st.ts["loop"] != d["lid"]:
            return
        if E.recording:
            self.iteration(E, st, node)
        for k in ("call", "xname", "lits", "loop"):
            st.ts.pop(k, None)
        st.ts["moves"] = ()

    def iteration(self, E, st, node):
        mv = st.ts.get("moves")
        tu, tx = st.ts["call"]
        x = st.frames.get(self.fid, {}).get(st.ts.get("xname"))
        self.obligation("one step moves its weight from the away vertex to the Frank-Wolfe vertex", E, node)
        if mv is None or x is None or x.kind != "arr":
            return E.note("active set or iterate not tracked", node)
        c = L.cont(E, st, x)
        if c is None or c.term is None:
            return E.note("iterate not tracked", node)
        X = T.poly(c.term)
        step = {}
        lm = T._canon(T.mk("user", "lmo", tu, tx))
        for m, k in X.items():
            if any(t is lm for t, _ in m):
                step[tuple(z for z in m if z[0] is not lm)] = k
        if not step and LN.minus(X, T.poly(tx)):
            return E.note("change of the iterate not recognised", node)
        fw, aw = [T._canon(T.mk("user", n, tu, tx)) for n in ("fw_vertex", "away_vertex")]
        net, last, dels = {}, {}, []
        for kind, k, dl, v, known in mv:
            k = T._canon(k)
            if kind == "add":
                if not known:
                    net[k] = None
                elif net.get(k, {}) is not None:
                    net[k] = LN.padd(net.get(k, {}), T.poly(dl))
                last[k] = v
            else:
                dels.append(k)
                last[k] = v
        where = "an iteration that moves the iterate by %s times the direction" % LN.show(step)
        for k, want, name in ((fw, step, "Frank-Wolfe"), (aw, T._padd({}, step, -1), "away")):
            got = net.pop(k, {})
            if got is None:
                if k not in dels:
                    self.report(E, node, name + "-weight", "%s overwrites the weight of the %s vertex" % (where, name))
                continue
            if k in dels and not got:
                continue        # removed without a store: judged by its sign below
            if LN.minus(got, want):
                self.report(E, node, name + "-weight", "%s changes the weight of the %s vertex by %s" % (where, name, LN.show(got)))
        for k, got in net.items():
            if got != {}:
                self.report(E, node, "other-weight", "%s changes the weight of %s" % (where, T.show(k, 2)))
        # sign of the away weight
        self.obligation("a vertex is kept exactly when its weight is positive", E, node)
        v = last.get(aw)
        if v is None or not step:
            return
        V_ = T.poly(v)
        if aw in dels and not any(kind == "add" and T._canon(k) is aw for kind, k, *_ in mv):
            V_ = LN.minus(V_, step)
        sg = ALL
        for op, t in st.ts.get("lits") or ():
            D = T.poly(t)
            f = None
            if not LN.minus(D, V_):
                f = 1
            elif not LN.padd(D, V_):
                f = -1
            else:
                continue
            ok = {"eq": {ZERO}, "ne": {NEG, POS}, "lt": {-f}, "le": {-f, ZERO}}[op]
            sg = sg & ok
        if aw in dels:
            if not sg <= {ZERO}:
                self.report(E, node, "dropped", "a vertex is removed from the active set although its weight need not be zero")
        else:
            if ZERO in sg:
                self.report(E, node, "kept", "a vertex whose weight has become zero stays in the active set")
            if NEG in sg:
                self.report(E, node, "negative", "a step larger than the weight of the away vertex is accepted")

    # ------------------------------------------------------------ representations returned by the oracles
    def on_select(self, E, st, node, d):
        pass

    def finish(self, E, run, results):
        if self.cls is None:
            return
        orc = Oracles()
        orc.run, orc.cls, orc.what, orc.entry = run, self.cls, run.meta["what"], None
        w, fn = orc.where(E)
        AL = T.sym("alpha")
        pw = run.meta["what"] == "lmo_pairwise"
        for st, v in results:
            its = E.items_of(st, v)
            if not its or len(its) != 4 or its[0].kind != "arr":
                continue
            c = L.cont(E, st, its[0])
            if c is None or c.term is None:
                continue
            V_ = T.poly(c.term)
            if not pw:
                V_ = LN.padd(V_, T.poly(T.sym("x")))
            away = {m: k for m, k in V_.items() if any(T.contains(t, lambda z: z.op == "sym" and str(z.args[0]) in ("v_sign", "v_idx")) for t, _ in m)}
            fw = {m: k for m, k in V_.items() if m not in away}
            for part, rep, sign, name in ((fw, its[1], 1, "Frank-Wolfe"), (away, its[2], -1, "away")):
                if name == "away" and not pw:
                    continue
                p = self.vertex(E, st, rep)
                self.obligation("the representation names the vertex in the direction")
                if rep.kind == "none":
                    self.report_at(w, fn, "representation", "no representation of the %s vertex is returned" % name)
                elif p is not None and part and not opaque_poly(part):
                    want = T._pmul(T._pmul(p, {((AL, 1),): 1}), {(): sign})
                    if LN.minus(part, want):
                        self.report_at(w, fn, "representation", "the %s part of the direction is %s, but its representation stands for %s" % (
                            name, LN.show(part), LN.show(want)))
            if pw:
                m = its[3]
                self.obligation("the maximum step is the weight of the away vertex")
                if m.known:
                    self.report_at(w, fn, "max-step", "the maximum pairwise step is %r, not the weight of the away vertex" % (m.const,))
                elif m.term is not None:
                    t = m.term
                    if t.op == "weight" and not T.contains(t, lambda z: z.op == "loopvar" or z.op == "sym" and str(z.args[0]) in ("v_sign", "v_idx")):
                        self.report_at(w, fn, "max-step", "the maximum step is the weight of %s, not of the away vertex" % T.show(t, 3))

    def vertex(self, E, st, rep):
        """polynomial of the unit vertex a representation stands for"""
        its = E.items_of(st, rep) if rep.kind in ("tuple", "list") else None
        if its is not None:
            if len(its) != 2 or its[0].term is None or its[1].term is None:
                return None
            return T._pmul(T.poly(its[0].term), T.atom(T.mk("unitvec", T._canon(its[1].term))))
        if rep.kind == "num" and rep.term is not None:
            return T.atom(T.mk("unitvec", T._canon(rep.term)))
        return None


def weighty(t):
    return t.op == "weight" or t.op == "fresh" and str(t.args[0]).endswith(".w")


def opaque_poly(p):
    return any(T.contains(t, lambda z: z.op in ("phi", "fresh", "unk")) for m in p for t, _ in m)

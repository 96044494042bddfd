import ast

from ..framework import Prop
from .. import runs as R, terms as T, linear as LN
from ..lib import axis_of, base_axis


def strip(t):
    while t is not None and t.op in ("tuple", "list") and len(t.args) == 1:
        t = t.args[0]
    return t


def diff(a, b):
    """The polynomial a - b, or None when it is not one in plain quantities."""
    p = LN.minus(T.poly(a), T.poly(b))
    return p


def plain(p):
    def known(t):
        return t.op in ("sym", "const") or t.op == "floordiv" and all(isinstance(a, T.Term) and known(a) for a in t.args)
    return all(known(z) for m in p for z, _ in m)


def shifted(t, lv):
    """t with lv + 1 in place of lv"""
    out = {}
    for m, c in T.poly(t).items():
        e = dict(m).get(lv, 0)
        if e not in (0, 1):
            return None
        out = T._padd(out, {m: c})
        if e == 1:
            out = T._padd(out, {tuple(x for x in m if x[0] is not lv): c})
    return out


# samples and any smaller size (batch)
SIZES = [lambda z, n=n: n if z.args[0] == "#S" else 2 if z.args[0] == "batch_size" else None for n in (7, 12)]


class Check(Prop):
    id = "C27"
    technique = "typestate of the drawn order (drawn, fresh, covering) with path counting of the passes per epoch; symbolic check that consecutive batches tile the drawn indices"
    rule = """Variance-reduced solvers: on every path of one epoch exactly one pass over the samples is made; the order of the pass is a random
    permutation of the whole range drawn in the same epoch; each of its elements is processed by every proximal kernel exactly once, and
    the pass is not left early. Stochastic Frank-Wolfe: in every epoch the indices are drawn anew over the whole range, batches without
    replacement; the first batch starts at zero, each batch starts where the previous one ended, and the loop ends at the length of the
    drawn array."""

    def runs(self):
        out = []
        for r in R.stochastic():
            n = r.name
            if n.startswith(("minimize_saga", "minimize_svrg", "minimize_vrtos")) and "prox=user" in n:
                out.append(R._r(n, r.build, kind="vr"))
            elif n in ("minimize_sfw[SAG]", "minimize_sfw[SAG,batch]", "minimize_sfw[LF]", "minimize_sfw[LF,batch]", "minimize_sfw[SAGA,pairwise]"):
                out.append(R._r(n, r.build, kind="sfw", batch="batch" in n))
        return out

    def setup(self, E, run):
        self.kind = run.meta["kind"]
        self.batch = run.meta.get("batch")
        self.fn = run.name.split("[")[0]
        self.fid = None
        self.samples = set()        # loops that make a pass over the samples
        self.batches = {}           # loops over the batches: variables that hold the start
        self.draws = set()          # loops that draw part of the order in each iteration

    def bad(self, E, node, rule, msg, detail=""):
        if E.recording:
            self.report(E, node, rule, msg, func=self.fn, detail=detail)

    def ob(self, E, what, node):
        if E.recording:
            self.obligation(what, E, node)

    # ------------------------------------------------------------ epochs
    def on_enter(self, E, st, node, d):
        if self.fid is None and d["fn"].name == self.fn:
            self.fid = d["fid"]

    def outer(self, E):
        """The loop over the epochs, when it is active."""
        for l in E.loops:
            if self.fid and l.startswith(self.fid + ":L"):
                return l
        return None

    def on_body_start(self, E, st, node, d):
        lid = d["lid"]
        if self.fid and lid == self.outer(E):
            st.ts["fresh"] = False
            st.ts["passes"] = 0
        if self.outer(E) and lid != self.outer(E):
            st.ts["n:" + lid] = ()

    def on_random(self, E, st, node, d):
        nm = d["name"].split(".")[-1]
        if nm in ("seed", "set_state", "rand") or not self.outer(E):
            return
        st.ts["fresh"] = True
        self.draws.update(E.loops[E.loops.index(self.outer(E)) + 1:])
        if self.kind == "sfw" and self.batch:
            self.ob(E, "batches are drawn without replacement", node)
            if nm == "randint":
                self.bad(E, node, "replacement", "the indices of a batch are drawn with replacement", nm)
            elif nm == "choice":
                rep = d["kwargs"].get("replace") or (d["args"][2] if len(d["args"]) > 2 else None)
                if rep is None or rep.known and rep.const:
                    self.bad(E, node, "replacement", "the indices of a batch are drawn with replacement", nm)
        if self.kind == "sfw":
            self.whole_range(E, st, node, nm, d)

    def whole_range(self, E, st, node, nm, d):
        a = list(d["args"])
        if nm == "choice" or nm == "permutation":
            pop = a[0] if a else None
            lo = None
        elif nm == "randint":
            lo = a[0] if a else d["kwargs"].get("low")
            pop = a[1] if len(a) > 1 else d["kwargs"].get("high")
            if pop is None or pop.kind == "none":
                lo, pop = None, lo
        else:
            return
        self.ob(E, "indices are drawn over all samples", node)
        if lo is not None and lo.known and lo.const != 0:
            self.bad(E, node, "range", "sample %s is the first that can be drawn" % lo.const, nm)
        if pop is not None and pop.kind == "num" and pop.term is not None:
            p = diff(pop.term, self.size(E))
            if p and (plain(p) or LN.differ(pop.term, self.size(E), SIZES)):
                self.bad(E, node, "range", "indices are drawn below %s, not below the number of samples" % T.show(pop.term, 3), nm)

    def on_store(self, E, st, node, d):
        """Batches drawn one by one must fill the array without gaps or overlaps."""
        i = d.get("index")
        lid = E.loops[-1] if E.loops else None
        if self.kind != "sfw" or lid not in self.draws or i is None:
            return
        if i.kind != "slice" or i.items is None:
            return
        lo, hi = E.term_of(st, i.items[0]), E.term_of(st, i.items[1])
        lvs = [z for m in T.poly(lo) for z, _ in m if z.op == "loopvar"]
        if len(set(lvs)) != 1:
            return
        nxt = shifted(lo, lvs[0])
        self.ob(E, "batches fill the drawn array one after the other", node)
        if nxt is None:
            return
        gap = LN.minus(nxt, T.poly(hi))
        if gap and plain(gap):
            self.bad(E, node, "gap", "a batch is stored up to %s but the next one starts %s after it" % (T.show(hi, 3), LN.show(gap)), "tile")

    def size(self, E):
        return T.sym("#S")

    # ------------------------------------------------------------ passes of the variance-reduced solvers
    def content(self, E, st, t):
        for o, c in st.heap.items():
            if c.v is not None and c.v.term is t:
                return c.v
        return None

    def on_user(self, E, st, node, d):
        if self.kind == "vr" and d["role"] == "kernel":
            self.kernel(E, st, node, d)
        elif self.kind == "sfw" and d["role"] == "deriv":
            self.consumed(E, st, node, d)

    def kernel(self, E, st, node, d):
        out = self.outer(E)
        if out is None or len(d["args"]) < 2:
            return
        lid = E.loops[-1]
        if lid == out:
            return
        self.samples.add(lid)
        st.ts["n:" + lid] = st.ts.get("n:" + lid, ()) + (d["which"],)
        I = d["args"][1].term
        self.ob(E, "the order of a pass is a permutation of all samples drawn in this epoch", node)
        if not st.ts.get("fresh"):
            self.bad(E, node, "stale", "the samples are visited in an order that was not drawn in this epoch", "order")
        if I is None:
            return
        if I.op == "loopvar":
            ex = d["args"][1].extra
            if isinstance(ex, dict) and "range" in ex:
                self.bad(E, node, "order", "the samples are visited in their natural order", "order")
            return
        if I.op != "load" or len(I.args) != 2 or I.args[1].op != "loopvar":
            E.note("C27: sample index not understood: %s" % T.show(I, 4))
            return
        ID = I.args[0]
        part = None
        if ID.op == "load" and len(ID.args) == 2 and ID.args[1].op == "slice":
            part, ID = ID.args[1], ID.args[0]
        c = self.content(E, st, ID)
        ex = c.extra if c is not None and isinstance(c.extra, dict) else {}
        if part is not None and self.strict(E, part):
            self.bad(E, node, "partial", "only a part %s of the drawn order is visited" % T.show(part, 3), "order")
        if "draw" in ex:
            self.bad(E, node, "order", "the samples are drawn independently: some are visited several times, some never", "order")
        elif "perm" in ex:
            if not ex.get("shuffled"):
                self.bad(E, node, "order", "the samples are visited in their natural order", "order")
            b, k = base_axis(ex["perm"])
            if b != "S" and not str(b).startswith(("n:", "N:")) or k != 0:
                if b is not None:
                    self.bad(E, node, "partial", "the order covers %s of the %s samples" % (ex["perm"], "S"), "order")
        else:
            E.note("C27: provenance of the order not known")
        self.bounds(E, st, node, I.args[1])

    def strict(self, E, sl):
        lo, hi, step = (list(sl.args) + [None] * 3)[:3]

        def const(t):
            return t is not None and t.op == "const"
        if const(lo) and lo.args[0] not in (None, 0):
            return True
        if const(step) and step.args[0] not in (None, 1, -1):
            return True
        if const(hi):
            return hi.args[0] is not None
        if hi is not None:
            p = diff(hi, self.size(E))
            return bool(p) and plain(p)
        return False

    def bounds(self, E, st, node, lv):
        """A pass written as a loop over positions must run over all of them."""
        for f in st.facts:
            if not isinstance(f, T.Term) or len(f.args) != 2:
                continue
            if f.op == "lt" and f.args[0] is lv:
                p = diff(f.args[1], self.size(E))
                if p and plain(p):
                    self.bad(E, node, "partial", "the pass ends at position %s" % T.show(f.args[1], 3), "bounds")
            if f.op == "le" and f.args[1] is lv and f.args[0].op == "const" and f.args[0].args[0] not in (0, 0.0):
                self.bad(E, node, "partial", "the pass starts at position %s" % f.args[0].args[0], "bounds")

    def on_body_end(self, E, st, node, d):
        lid = d["lid"]
        if self.kind == "vr" and lid in self.samples:
            self.ob(E, "each sample is processed once by every kernel", node)
            n = st.ts.get("n:" + lid, ())
            if len(set(n)) < len(n):
                self.bad(E, node, "twice", "on some path a sample goes through %s twice" % [k for k in n if n.count(k) > 1][0], "kernel")
            if not n:
                self.bad(E, node, "skipped", "on some path a sample of the pass is not processed", "kernel")
        if "n:" + lid in st.ts:
            del st.ts["n:" + lid]
        if self.kind == "vr" and lid == self.outer(E) and self.samples:
            self.ob(E, "every epoch makes one pass", node)
            n = st.ts.get("passes", 0)
            if n != 1:
                self.bad(E, node, "passes", "on some path an epoch makes %s passes over the samples" % n, "epoch")
        if lid == self.outer(E):
            st.ts.pop("passes", None)
            st.ts.pop("fresh", None)
            st.ts.pop("cur", None)
        elif self.kind == "sfw":
            self.advance(E, st, node, lid)

    def on_loop_exit(self, E, st, node, d):
        lid = d["lid"]
        st.ts.pop("n:" + lid, None)
        if lid in self.draws and d.get("how") == "exhausted" and self.outer(E):
            st.ts["fresh"] = True       # nothing to draw when it made no iteration
        if self.kind == "vr" and lid in self.samples and self.outer(E):
            st.ts["passes"] = min(st.ts.get("passes", 0) + 1, 3)
            if d.get("how") == "break":
                self.bad(E, node, "early", "the pass over the samples can be left before its end", "epoch")
        if lid in self.batches:
            st.ts.pop("cur", None)
            if d.get("how") == "exhausted" and isinstance(node, ast.While):
                self.ended(E, st, node, self.batches[lid])

    # ------------------------------------------------------------ batches of stochastic Frank-Wolfe
    def consumed(self, E, st, node, d):
        out = self.outer(E)
        if out is None or len(E.loops) < 2 or len(d["args"]) < 2:
            return
        I = strip(E.term_of(st, d["args"][1]))
        self.ob(E, "drawn indices are consumed in consecutive batches", node)
        if not st.ts.get("fresh"):
            self.bad(E, node, "stale", "the indices were not drawn in this epoch", "order")
        if I is None or I.op != "load" or len(I.args) != 2:
            return
        ID = I.args[1]
        if ID.op != "load" or len(ID.args) != 2 or ID.args[1].op != "slice":
            E.note("C27: batch not understood: %s" % T.show(ID, 4))
            return
        lo, hi, step = (list(ID.args[1].args) + [None] * 3)[:3]
        if step is not None and step.op == "const" and step.args[0] not in (None, 1):
            self.bad(E, node, "gap", "a batch takes every %s-th of the drawn indices" % step.args[0], "batch")
            return
        his = list(hi.args[1:]) if hi.op == "call" and hi.args[0] == "min" else [hi]
        # the variable that holds the start of the batch
        fr = st.frames.get(self.fid, {})
        name = [n for n, v in fr.items() if not n.startswith("$") and v.kind == "num" and v.term is lo]
        loop = [l for l in E.loops if l.startswith(self.fid + ":L")][-1]
        if name:
            self.batches[loop] = (name, hi, lo)
        st.ts["cur"] = (loop, tuple(sorted(name)), lo, tuple(his))
        for h in his:
            p = diff(h, lo)
            if p == {} and len(his) == 1:
                self.bad(E, node, "gap", "the batch is empty", "batch")

    def advance(self, E, st, node, lid):
        cur = st.ts.get("cur")
        if not cur or cur[0] != lid:
            return
        st.ts.pop("cur", None)
        _, names, lo, his = cur
        if not isinstance(node, ast.While):
            return
        self.ob(E, "each batch starts where the previous one ended", node)
        fr = st.frames.get(self.fid, {})
        ok, deltas = False, []
        for n in names:
            v = fr.get(n)
            if v is None or v.kind != "num" or v.term is None:
                return
            dl = diff(v.term, lo)
            if dl == {}:
                continue            # not the variable that advances
            deltas.append((n, dl))
        for n, dl in deltas:
            for h in his:
                if dl == diff(h, lo):
                    ok = True
        if not ok and deltas and all(plain(dl) for _, dl in deltas) and any(plain(diff(h, lo)) for h in his):
            n, dl = deltas[0]
            self.bad(E, node, "gap", "a batch takes indices up to %s but the next one starts %s after it" % (
                "/".join(T.show(h, 3) for h in his), LN.show(dl) if hasattr(LN, "show") else dl), "batch")
        st.ts["_var"] = tuple(n for n, _ in deltas) or names

    def ended(self, E, st, node, what):
        """Nothing of the drawn array may be left when the loop over its batches ends."""
        names, hi, lo = what
        self.ob(E, "the batches end where the drawn array ends", node)
        fr = st.frames.get(self.fid, {})
        for n in names:
            v = fr.get(n)
            if v is None or v.kind != "num" or v.term is None or v.known:
                continue
            for t, pol in st.facts.items():
                if t.op != "lt" or pol is not False:
                    continue
                # start >= c at the end
                c = LN.padd(diff(t.args[1], t.args[0]), T.poly(v.term))
                for whole in self.lengths(T.poly(t.args[1])):
                    short = LN.minus(whole, c)
                    if short and plain(short) and all(k > 0 for k in short.values()) and all(e > 0 for m in short for _, e in m):
                        self.bad(E, node, "unfinished", "the loop over the batches ends although %s of the drawn indices may be left" % LN.show(short), "end")

    def lengths(self, p):
        yield {k: v for k, v in T.poly(self.size(None)).items()}
        # a whole number of batches
        for m, k in p.items():
            if any(z.op == "floordiv" and z.args[0] is self.size(None) for z, _ in m):
                yield {m: k}

    def on_loop_enter(self, E, st, node, d):
        if self.kind != "sfw" or not isinstance(node, ast.While) or self.outer(E) is None or not d["lid"].startswith(self.fid + ":L"):
            return
        # variables compared in the test of the loop
        used = {n.id for n in ast.walk(node.test) if isinstance(n, ast.Name)}
        step = {n.target.id for n in ast.walk(node) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
        for n in used & step:
            v = st.frames.get(self.fid, {}).get(n)
            if v is not None and v.kind == "num" and v.known:
                self.ob(E, "the first batch starts at zero", node)
                if v.const != 0:
                    self.bad(E, node, "gap", "the first batch of an epoch starts at position %s" % v.const, "first")

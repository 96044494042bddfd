from ..framework import Prop
from .. import runs as R, terms as T, linear as LN


def walk(t, seen):
    if t in seen:
        return
    seen.add(t)
    for a in t.args:
        if isinstance(a, T.Term):
            walk(a, seen)


def part(t, name):
    """t is this array of a sparse matrix"""
    if t.op != "part":
        return False
    a = t.args[0]
    return (a.args[0] if isinstance(a, T.Term) and a.args else a) == name


class Check(Prop):
    id = "C16"
    technique = "typestate of the scratch arrays (clean, dirty, stale) over the samples of a pass; comparison of the corrections as polynomials over the gradient memory"
    rule = """An array that receives a sample's correction at the columns of the sample and lives longer than the sample is zero when the pass
    starts and is zero again at those columns before any other sample reads it, on every path. The value stored in the gradient memory, the
    correction and the change of the running average belong together: correction = (new - old memory) * data, average += correction / n, on
    every path of a sample. Where the memory is a snapshot, the average is computed at the same point whenever the snapshot is renewed."""

    def runs(self):
        return [R._r(r.name, r.build) for r in R.stochastic() if r.name.startswith(("minimize_saga", "minimize_svrg", "minimize_vrtos"))]

    def setup(self, E, run):
        self.fn = run.name.split("[")[0]
        self.passes = {}        # loop over samples -> its node
        self.scratch = {}       # loop over samples -> objects
        self.memory = {}        # loop over samples -> objects stored at the sample's index
        self.average = {}       # loop over samples -> objects incremented at the sample's columns
        self.clears = {}        # inner loop -> objects it resets
        self.adds = {}          # inner loop -> objects it increments
        self.partial = set()
        self.stored = {}
        self.sample = {}        # loop over samples -> the index of the sample
        self.nodes = {}

    def bad(self, E, node, rule, msg, detail=""):
        if E.recording:
            self.report(E, node, rule, msg, func=self.fn, detail=detail)

    def ob(self, E, what, node):
        if E.recording:
            self.obligation(what, E, node)

    # ------------------------------------------------------------ vocabulary
    def inside(self, E):
        for l in reversed(E.loops):
            if l in self.passes:
                return l
        return None

    def bounds(self, st, lv):
        lo = hi = None
        for t, pol in st.facts.items():
            if pol is True and t.op == "lt" and t.args[0] is lv:
                hi = t.args[1]
            elif pol is True and t.op == "le" and t.args[1] is lv:
                lo = t.args[0]
        return (lo, hi) if lo is not None and hi is not None else None

    def column(self, st, t):
        """(first, end) of the stored entries of a row when t is the column of one of them"""
        if t is None or t.op != "load" or len(t.args) != 2 or t.args[1].op != "loopvar":
            return None
        if not part(t.args[0], "indices"):
            return None
        return self.bounds(st, t.args[1])

    def row(self, b):
        """the sample whose row has these bounds"""
        lo, hi = b
        if lo.op == "load" and len(lo.args) == 2 and part(lo.args[0], "indptr"):
            return lo.args[1]
        return None

    def canon(self, st, t):
        """Entries of a row get the same name in every loop over the row."""
        lvs = set()
        walk(t, lvs)
        m = {}
        for z in lvs:
            if z.op == "loopvar":
                b = self.bounds(st, z)
                if b and self.row(b) is not None:
                    m[z] = T.mk("call", "cell", b[0], b[1])
        if not m:
            return t
        return T.subst_leaves(t, lambda z: m.get(z, z), {}, lambda z: True)

    def inner(self, lid, oid):
        """allocated anew for each sample"""
        fid = lid.rsplit(":L", 1)[0]
        f, _, rest = oid.rpartition(":")
        if f == fid:
            n = self.passes[lid]
            line = rest.split(".")[0]
            return line.isdigit() and n.lineno <= int(line) <= n.end_lineno
        return f.startswith(fid + "/")

    def put(self, st, k, x):
        st.ts[k] = frozenset(st.ts.get(k, frozenset()) | {x})

    # ------------------------------------------------------------ events
    def on_user(self, E, st, node, d):
        if d["role"] == "deriv" and E.loops and E.loops[-1] not in self.passes:
            n = self.nodes.get(E.loops[-1])
            if n is not None:
                self.passes[E.loops[-1]] = n

    def on_loop_enter(self, E, st, node, d):
        self.nodes[d["lid"]] = node
        L = d["lid"]
        for o in self.scratch.get(L, ()):
            c = st.heap.get(o)
            if c is None or c.v is None:
                continue
            self.ob(E, "the scratch array is zero when the pass starts", node)
            v = c.v
            r = v.rng
            if v.term is not None and v.term.op == "empty" or (r and (r[0] > 0 or r[1] < 0)):
                self.bad(E, node, "initial", "the scratch array of a sample's correction is not zero when the pass starts", "scratch")
        for o in self.memory.get(L, ()):
            for g in self.average.get(L, ()):
                m, a = st.heap.get(o), st.heap.get(g)
                if m is None or a is None or m.v is None or a.v is None or "_begun" in st.ts:
                    continue
                self.ob(E, "memory and average start together", node)
                rm, ra = m.v.rng, a.v.rng
                if rm and ra and ((rm == (0, 0)) != (ra == (0, 0))) and (rm[0] > 0 or rm[1] < 0 or ra[0] > 0 or ra[1] < 0):
                    self.bad(E, node, "initial", "the gradient memory and its average start with different values", "memory")

    def on_body_start(self, E, st, node, d):
        lid = d["lid"]
        if lid in self.passes:
            st.ts["_corr"] = ()
        if lid in self.clears or lid in self.adds:
            st.ts["c"] = frozenset(x for x in st.ts.get("c", ()) if x[0] != lid)
        if len(E.loops) == 1 and lid not in self.passes:
            st.ts["_avgfrom"] = ()
            st.ts.pop("avg", None)
            st.ts["_points"] = tuple(c.v.term for o, c in sorted(st.heap.items()) if c.v is not None and c.v.kind == "arr" and c.v.term is not None)

    def on_store(self, E, st, node, d):
        L = self.inside(E)
        if L is None or len(d["ref"].objs) != 1:
            return
        (o,) = d["ref"].objs
        if self.inner(L, o):
            return
        self.stored.setdefault(L, set()).add(o)
        v = d["v"]
        zero = v.known and v.const == 0
        if d["whole"] and zero:
            self.clean(st, o)
            return
        idx = E.term_of(st, d["index"])
        b = self.column(st, idx)
        lid = E.loops[-1]
        if b is None:
            if zero:
                self.clean(st, o)       # all of a block, or a range not understood
                for l in E.loops[E.loops.index(L) + 1:]:
                    self.clears.setdefault(l, set()).add(o)
                self.put(st, "c", (lid, o))
                return
            self.memory_store(E, st, node, d, L, o, idx)
            return
        if zero:
            dirty = [x for x in st.ts.get("dirty", ()) if x[0] == o]
            for _, lo, hi in dirty:
                gl, gh = LN.minus(T.poly(b[0]), T.poly(lo)), LN.minus(T.poly(b[1]), T.poly(hi))
                if (gl or gh) and all(k == () for g in (gl, gh) for k in g):
                    self.partial.add((lid, o))
            self.clears.setdefault(lid, set()).add(o)
            self.put(st, "c", (lid, o))
            return
        inc = self.increment(st, d, idx)
        if inc is None and o in self.average.get(L, ()) and v.term is not None and d["base"].rng == (0, 0):
            inc = T.poly(v.term)        # an array of zeros: its elements have no name
        if inc is not None:
            self.scratch.get(L, set()).discard(o)
            self.average.setdefault(L, set()).add(o)
            self.adds.setdefault(lid, set()).add(o)
            self.put(st, "c", (lid, o))
            self.average_store(E, st, node, L, o, inc, b)
            return
        # the sample's correction
        self.scratch.setdefault(L, set()).add(o)
        self.ob(E, "the correction of a sample is stored in a scratch array", node)
        self.put(st, "dirty", (o, b[0], b[1]))
        if v.term is not None:
            st.ts["_corr"] = ((T.poly_to_term(T.poly(self.canon(st, v.term))), self.row(b), T.mk("call", "cell", b[0], b[1])),)

    def on_method(self, E, st, node, d):
        a = d["args"]
        if d["name"] == "fill" and self.inside(E) and a and a[0].known and a[0].const == 0:
            for o in d["recv"].objs:
                self.clean(st, o)

    def clean(self, st, o):
        for k in ("dirty", "stale"):
            if k in st.ts:
                st.ts[k] = frozenset(x for x in st.ts[k] if (x[0] if k == "dirty" else x) != o)

    def increment(self, st, d, idx):
        """what is added to the element, None when it is overwritten"""
        if d["aug"]:
            op, v = d["aug"]
            if op not in ("Add", "Sub") or v.term is None:
                return None
            p = T.poly(v.term)
            return p if op == "Add" else LN.minus({}, p)
        v = d["v"]
        if v.term is None or d["base"].term is None:
            return None
        p = T.poly(v.term)
        old = T.mk("load", d["base"].term, idx)
        rest = LN.minus(p, T.poly(old))
        if len(rest) < len(p):
            return rest
        return None

    def on_load(self, E, st, node, d):
        L = self.inside(E)
        if L is None:
            return
        ref = d["ref"]
        b = self.column(st, E.term_of(st, d["index"]))
        if b is not None and self.row(b) is not None:
            self.sample.setdefault(L, set()).add(self.row(b))
        if len(ref.objs) == 1:
            (o,) = ref.objs
            if o in self.scratch.get(L, ()):
                if b is None:
                    self.ob(E, "the scratch array holds nothing of another sample when it is read", node)
                    if o in st.ts.get("stale", ()):
                        self.bad(E, node, "leftover", "the scratch array still holds the correction of a sample processed before", "scratch")
        self.snapshot(E, st, node, d, L)

    # ------------------------------------------------------------ memory and average
    def memory_store(self, E, st, node, d, L, o, idx):
        if idx in self.sample.get(L, ()) and not d["aug"]:
            self.memory.setdefault(L, set()).add(o)
            self.put(st, "c", (L, o))
        corrs = [c for c in st.ts.get("_corr", ()) if c[1] is not None and c[1] is idx]
        if not corrs or d["v"].term is None:
            return
        self.memory.setdefault(L, set()).add(o)
        self.put(st, "c", (L, o))
        base = d["base"].term
        if d["aug"] or base is None:
            return
        self.ob(E, "the memory stores the gradient used in the correction", node)
        old = T.poly(self.canon(st, T.mk("load", base, idx)))
        new = T.poly(self.canon(st, d["v"].term))
        want = LN.minus(new, old)
        for corr in corrs:
            C = T.poly(corr[0])
            quot = self.over_data(C, corr[2])
            if quot is None:
                return
            gap = LN.minus(want, quot)
            if not gap or not self.understood(gap, C):
                return
        self.bad(E, node, "memory", "the gradient stored in the memory is not the one the correction was computed with", "memory")

    def over_data(self, C, cell):
        """C divided by the entry of the row"""
        out = {}
        for m, c in C.items():
            e = [z for z, k in m if k == 1 and z.op == "load" and len(z.args) == 2 and part(z.args[0], "data")]
            if len(e) != 1:
                return None
            out = T._padd(out, {tuple(x for x in m if x[0] is not e[0]): c})
        return out

    def understood(self, p, C):
        """made of the same quantities as the correction"""
        known = {z for m in C for z, _ in m} | {T.sym("#S")}
        return all(z in known or z.op in ("sym", "const") or z.op == "load" and z.args[0].op == "user" for m in p for z, _ in m)

    def average_store(self, E, st, node, L, o, inc, b):
        corrs = st.ts.get("_corr", ())
        if not corrs:
            return
        inc = T.poly(self.canon(st, T.poly_to_term(inc)))
        self.ob(E, "the average changes by the correction over the number of samples", node)
        for corr in corrs:
            C = T.poly(corr[0])
            gap = LN.minus(T._pmul(inc, T.poly(T.sym("#S"))), C)
            if not gap or (inc and not self.understood(inc, C)):
                return
        self.bad(E, node, "average", "the average changes by %s, the correction is %s" % (LN.show(inc, 4) if inc else "0", T.show(corr[0], 4)), "average")

    def join_ts(self, k, a, b):
        if k in ("_corr", "_avgfrom"):
            r = a + tuple(x for x in b if x not in a)
            return r if len(r) <= 6 else None
        return None

    # ------------------------------------------------------------ ends
    def on_body_end(self, E, st, node, d):
        lid = d["lid"]
        c = st.ts.get("c", frozenset())
        for o in self.clears.get(lid, set()) | self.adds.get(lid, set()):
            if (lid, o) not in c:
                self.partial.add((lid, o))
        if lid in self.passes and lid in self.scratch:
            self.sample_end(E, st, node, lid, c)
        if len(E.loops) == 1 and lid not in self.passes:
            for k in ("_avgfrom", "_points", "avg"):
                st.ts.pop(k, None)

    def sample_end(self, E, st, node, L, c):
        dirty = st.ts.get("dirty", frozenset())
        stale = frozenset(x[0] for x in dirty) | st.ts.get("stale", frozenset())
        for k in ("dirty", "_corr", "stale"):
            st.ts.pop(k, None)
        if stale:
            st.ts["stale"] = stale
        M, G = self.memory.get(L, set()), self.average.get(L, set())
        for o in M:
            self.ob(E, "every sample updates the memory", node)
            if (L, o) not in c:
                self.bad(E, node, "unpaired", "on some path a sample is processed without updating its entry of the gradient memory", "memory")
            elif not G:
                self.bad(E, node, "unpaired", "the gradient memory is updated but no average with it", "average")
        for o in G:
            self.ob(E, "every sample updates the average", node)
            if (L, o) not in c:
                self.bad(E, node, "unpaired", "on some path a sample is processed without updating the running average", "average")
            elif not M and G:
                self.bad(E, node, "unpaired", "the running average is updated but the gradient memory is not", "memory")
        st.ts["c"] = frozenset(x for x in c if x[0] != L)
        if not st.ts["c"]:
            del st.ts["c"]
        st.ts["_begun"] = True

    def on_loop_exit(self, E, st, node, d):
        lid = d["lid"]
        L = self.inside(E)
        if lid in self.passes and lid not in self.scratch:
            st.ts["avg"] = True
        if d.get("how") == "exhausted":
            for o in self.clears.get(lid, ()):
                if (lid, o) not in self.partial:
                    self.clean(st, o)
                    if E.loops and E.loops[-1] in self.clears:
                        self.put(st, "c", (E.loops[-1], o))
            for o in self.adds.get(lid, ()):
                if (lid, o) not in self.partial and L is not None:
                    self.put(st, "c", (L, o))
        if "c" in st.ts:
            st.ts["c"] = frozenset(x for x in st.ts["c"] if x[0] != lid)
            if not st.ts["c"]:
                del st.ts["c"]

    # ------------------------------------------------------------ snapshots
    def snapshot(self, E, st, node, d, L):
        c = d["base"]
        if c.term is None or c.kind != "arr" or len(d["ref"].objs) != 1 or len(E.loops) < 2:
            return
        idx = E.term_of(st, d["index"])
        if self.column(st, idx) is None or c.dt == "i":
            return
        (o,) = d["ref"].objs
        if L not in self.scratch:
            # the gradient of the whole sum
            was = st.ts.get("_avgfrom") or ()
            st.ts["_avgfrom"] = was if c.term in was else was + (c.term,)
            return
        if self.memory.get(L) or self.average.get(L) or o in self.scratch[L] or o in self.stored.get(L, ()):
            return
        self.ob(E, "the average is the gradient at the snapshot", node)
        points = st.ts.get("_points", ())
        if not any(c.term is p for p in points):
            return
        if not st.ts.get("avg"):
            self.bad(E, node, "snapshot", "the snapshot is renewed but the gradient average is not", "snapshot")
        frm = st.ts.get("_avgfrom")
        if frm and not any(T.equal(a, c.term) for a in frm) and all(any(a is p for p in points) for a in frm):
            self.bad(E, node, "snapshot", "the gradient average is computed at another point than the snapshot", "snapshot")

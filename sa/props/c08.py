from ..solver import *

NONSTOP = ("saga", "svrg", "vrtos", "sfw")


def trace_cb(E, st):
    for s, o in E.call_value(st, E.func("copt.utils.Trace"), [], {}, NODE):
        return o


class Check(SolverProp):
    id = "C08"
    technique = "typestate and alias analysis of the callback protocol along every path of each solver"
    rule = """Every iteration of the loop that calls the callback calls it, on all of its paths, and every solver has such a loop. The
    mapping handed over contains assigned entries 'x' and 'step_size'. On the path where the callback returned False, a deterministic
    solver takes no further iteration and the returned solution has exactly the value the callback saw under 'x'; in the stochastic
    solvers the returned solution is the array the callback saw. The library's own Trace runs as callback of every solver."""

    def runs(self):
        rs = tested_runs()
        tr = {"callback": user("callback", h_trace)}
        rs += [R._r(r.name + " with Trace", r.build, "trace", *r.tags, solver=r.meta["solver"]) for r in tested_runs(callback=tr)]
        return rs

    def setup(self, E, run):
        self.run = run
        self.fid = None
        self.loops = {}         # loop -> [back edges with a call, back edges without one]
        self.called = False
        self.inside = {}
        self.iterated = None

    def on_enter(self, E, st, node, d):
        if self.fid is None and d["fn"].name.startswith("minimize_"):
            self.fid = d["fid"]
            self.node = node

    def on_body_start(self, E, st, node, d):
        st.ts["_cb:" + d["lid"]] = False

    def on_callback(self, E, st, node, d):
        for l in E.loops:
            st.ts["_cb:" + l] = True
            if E.recording:
                self.loops.setdefault(l, [0, 0, None])[0] += 1
        if E.recording:
            self.called = True
        its = None
        a = d["args"]
        if len(a) != 1:
            if E.recording:
                self.report(E, node, "argument", "the callback is called with %d arguments instead of one mapping" % len(a))
            return
        m = a[0]
        if m.kind in ("locals", "rec") and isinstance(m.items, dict):
            its = m.items
        elif m.kind == "dict" and len(m.objs) == 1:
            c = st.heap.get(next(iter(m.objs)))
            if c is not None and isinstance(c.items, dict) and not (c.extra or {}).get("open"):
                its = {k.args[0]: v for k, v in c.items.items() if isinstance(k, T.Term) and k.op == "const"}
        elif m.kind in ("arr", "num", "none", "str"):
            if E.recording:
                self.report(E, node, "argument", "the callback is called with a %s instead of a mapping" % m.kind)
            return
        if its is None:
            return
        for k in ("x", "step_size"):
            v = its.get(k)
            if E.recording:
                self.obligation("callback sees %r" % k, E, node)
                if v is None or v.kind == "unbound":
                    self.report(E, node, "entry", "the mapping passed to the callback has no entry %r here" % k, detail=k)
        x = its.get("x")
        if x is not None and x.kind == "arr":
            c = L.cont(E, st, x)
            st.ts["_cbx"] = (c.term, x.objs)
            if st.ts.get("stopped") and "seen" not in st.ts and c.term is not None:
                st.ts["seen"] = c.term

    def join_ts(self, k, a, b):
        return None

    def on_backedge(self, E, st, node, d):
        if not E.recording:
            return
        l = d["lid"]
        e = self.loops.setdefault(l, [0, 0, None])
        if not st.ts.get("_cb:" + l) and not st.ts.get("stopped"):
            e[1] += 1
            e[2] = (E.where(node), node)
        if st.ts.get("stopped") and self.run.meta["solver"] not in NONSTOP:
            if st.ts.get("_cb:" + l):
                self.obligation("no iteration follows a callback that returned False", E, node)
                self.report(E, node, "continues", "the loop takes a further iteration after the callback returned False")

    def on_result(self, E, st, node, d):
        x = d["kw"].get("x")
        if not E.recording or x is None:
            return
        cb = st.ts.get("_cbx")
        c = L.cont(E, st, x)
        if cb is None and "seen" not in st.ts:
            return
        if self.run.meta["solver"] in NONSTOP:
            if cb is None:
                return
            self.obligation("the solution is the array the callback saw", E, node)
            if x.objs and cb[1] and not (x.objs & cb[1]) and not T.equal(cb[0], c.term):
                self.report(E, node, "other-array", "the returned solution is not the array the callback saw under 'x'")
        elif "seen" in st.ts:
            self.obligation("the solution has the value the callback saw", E, node)
            if c.term is not None and not T.equal(st.ts["seen"], c.term):
                self.report(E, node, "other-value", "after the callback returned False the solution is %s, but the callback saw %s" % (
                    T.show(c.term, 3), T.show(st.ts["seen"], 3)))

    def finish(self, E, run, results):
        self.obligation("the callback is called during the iteration")
        if self.fid is None or not results:
            return
        mine = {l: e for l, e in self.loops.items()}
        if not any(e[0] for e in mine.values()):
            self.report_at(E.where(self.node)[0], "minimize_" + run.meta["solver"], "never-called",
                           "no loop calls the callback" if self.called else "the callback is never called")
            return
        # innermost loops that call it
        inner = [l for l, e in mine.items() if e[0]]
        for l in inner:
            if any(m != l and self.nested(l, m) for m in inner):
                continue
            if mine[l][1]:
                (where, fn), node = mine[l][2]
                self.report_at(where, fn, "iteration-without-call", "an iteration of this loop does not call the callback")

    def nested(self, outer, inner):
        """loops are recorded with the ids of their source positions; inner loops are those active inside outer ones"""
        return inner in self.inside.get(outer, ())



    def on_loop_enter(self, E, st, node, d):
        for l in E.loops:
            if l != d["lid"]:
                self.inside.setdefault(l, set()).add(d["lid"])


def h_trace(E, st, args, kwargs, node):
    """The library's Trace called with whatever the solver passes."""
    out = []
    for s, o in E.call_value(st, E.func("copt.utils.Trace"), [], {}, node):
        for s2, v in E.call_value(s, o, args, kwargs, node):
            E.emit("callback", s2, node, args=args, kwargs=kwargs)
            out.append((s2, v))
    return out

from ..solver import *


def tests_f(t):
    return T.contains(t, lambda x: x.op == "user" and x.args and x.args[0] == "f")


class Check(SolverProp):
    id = "C25"
    technique = "typestate analysis of budgets and warnings along every path"
    rule = """A path is 'spent' when the iteration budget test has failed or the main loop ran out, and 'exhausted' when a line-search
    loop (an inner loop that compares objective values) ran out without leaving it by its acceptance test. In Frank-Wolfe
    (backtracking), proximal gradient and the primal-dual method every exhausted path issues a warning before its iteration ends; in
    proximal gradient, the primal-dual method and prox_tv2d every spent path whose stopping test has not passed issues one before the
    result. No warning is issued on a path that is neither."""

    def runs(self):
        out = []
        for cb in (STOP, {"callback": NONE}):
            out += [r for r in tested_runs(det_only=True, callback=cb) if r.meta["solver"] in ("fw", "pgd", "pdhg")]
        out += [R._r(r.name, r.build, "tv", solver="tv") for r in R.tvs() if r.name == "prox_tv2d"]
        for s in ("backtracking", "callable"):
            for a in (False, True):
                out.append(R._r("minimize_proximal_gradient[%s,accelerated=%s,budget 0]" % (s, a), prox_grad(step=s, accelerated=a, budget=(0, 0), extra=STOP), solver="pgd"))
        return out

    def setup(self, E, run):
        self.run = run
        self.ls = set()          # line-search loops
        self.main = set()        # outermost loops with the stopping test
        self.warned = False

    def on_branch(self, E, st, node, d):
        v = d["v"]
        if v.kind != "num" or v.term is None:
            return
        lits = list(implied(v.term, d["pol"]))
        if E.loops:
            for op, a, b in lits:
                if len(E.loops) > 1 and op in ("lt", "le") and (tests_f(a) or tests_f(b)) and not is_tol(b) and not is_tol(a):
                    self.ls.add(E.loops[-1])
                if is_tol(b) and op in ("lt", "le") or is_tol(a):
                    self.main.add(E.loops[0])
        for op, a, b in lits:
            if is_tol(a) or is_tol(b):
                st.ts["tested"] = True
            self.literal(E, st, node, op, a, b)
            if E.loops and a.op == "sym" and a.args[0] == "max_iter":
                st.ts["spent"] = True

    def on_body_start(self, E, st, node, d):
        if len(E.loops) == 1 or d["lid"] == E.loops[0]:
            for k in ("warned", "exhausted", "accepted", "tested"):
                st.ts.pop(k, None)

    def on_warn(self, E, st, node, d):
        self.obligation("a warning is due where it is issued", E, node)
        if E.recording:
            self.warned = True
            if st.ts.get("accepted") and not st.ts.get("exhausted") and not st.ts.get("spent"):
                self.report(E, node, "spurious", "a warning is issued although the line search succeeded and the iteration budget is not used up")
            if st.ts.get("passed") and not st.ts.get("exhausted"):
                self.report(E, node, "spurious", "a warning is issued although the tolerance was reached")
            if E.loops and E.loops[0] in self.main and st.ts.get("spent") and not st.ts.get("tested") and not st.ts.get("exhausted") and not st.ts.get("accepted"):
                self.report(E, node, "untested", "a warning is issued before this iteration has tested the tolerance")
        st.ts["warned"] = True
        if st.ts.get("exhausted") is True:
            st.ts["exhausted"] = "announced"

    def on_loop_exit(self, E, st, node, d):
        lid = d["lid"]
        if lid in self.ls:
            if d["how"] == "break":
                st.ts["accepted"] = True
            elif isinstance(node, ast.For):
                st.ts["exhausted"] = True
            return
        outer = [l for l in E.loops if l != lid]
        if not outer and lid in self.main and d["how"] != "break" and isinstance(node, ast.For):
            st.ts["spent"] = True

    def unannounced(self, E, st, node):
        self.obligation("an exhausted line search is announced", E, node)
        if st.ts.get("exhausted") is True:
            self.report(E, node, "line-search", "the line-search budget is exhausted on this path and no warning is issued")

    def on_backedge(self, E, st, node, d):
        if E.recording and d["lid"] == E.loops[0] and d["lid"] not in self.ls:
            self.unannounced(E, st, node)

    def on_result(self, E, st, node, d):
        if E.recording:
            self.end(E, st, node)

    def on_leave(self, E, st, node, d):
        if E.recording and d["top"] and self.run.meta["solver"] == "tv":
            self.end(E, st, d["fn"].node)

    def end(self, E, st, node):
        self.unannounced(E, st, node)
        if self.run.meta["solver"] == "fw":
            return
        self.obligation("an exhausted iteration budget is announced", E, node)
        if st.ts.get("spent") and not st.ts.get("passed") and not st.ts.get("stopped") and not st.ts.get("warned"):
            self.report(E, node, "budget", "the iteration budget is used up on this path and no warning is issued")

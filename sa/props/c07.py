from ..solver import *


def loose(b):
    """b is tol times a constant larger than one"""
    p = T.poly(b)
    if len(p) != 1:
        return False
    (m, c), = p.items()
    return len(m) == 1 and is_tol(m[0][0]) and m[0][1] == 1 and c > 1


class Check(SolverProp):
    id = "C07"
    technique = "typestate analysis of the stopping test along every path of each solver"
    rule = """A path of a solver is 'passed' once a condition that implies (stopping quantity below tol) holds on it. Every result has a
    success entry; it is True only on passed paths and never False on a passed path, so in particular it is False after the budget is
    exhausted or the callback returned False. No path takes a further iteration of any loop after it has passed."""

    def runs(self):
        return tested_runs() + tested_runs(callback={"callback": NONE})

    def setup(self, E, run):
        self.seen = set()
        self.run = run

    def on_backedge(self, E, st, node, d):
        if not E.recording:
            return
        self.obligation("no iteration follows the stopping test", E, node)
        if st.ts.get("passed"):
            self.report(E, node, "continues", "the loop takes a further iteration after the stopping test has passed")

    def on_result(self, E, st, node, d):
        if not E.recording:
            return
        s = d["kw"].get("success")
        passed = bool(st.ts.get("passed"))
        self.obligation("success agrees with the stopping test on this path", E, node)
        if s is None and "**" in d["kw"]:
            return
        if s is None:
            return self.report(E, node, "no-success", "the result has no success entry")
        if s.kind in ("none", "str", "tuple", "list", "dict"):
            return self.report(E, node, "not-boolean", "success is a %s" % s.kind)
        if s.kind != "num":
            return
        if s.known:
            if bool(s.const) and not passed:
                why = "the callback stopped it" if st.ts.get("stopped") else "its stopping test has not passed"
                self.report(E, node, "success-without-test", "success is True on a path where %s" % why)
            elif not bool(s.const) and passed:
                self.report(E, node, "test-without-success", "success is False on a path where the stopping test has passed")
            elif bool(s.const):
                self.seen.add("true")
        elif s.term is not None and not opaque(s.term):
            lits = list(implied(s.term, True))
            if lits and not any(is_tol(b) for _, a, b in lits) and not has_sym(s.term, "tol"):
                self.report(E, node, "success-without-test", "success is decided by %s, not by the stopping test" % T.show(s.term, 3))
            elif not passed and any(loose(b) for _, a, b in lits) and not any(is_tol(b) for _, a, b in lits):
                self.report(E, node, "success-without-test", "success is True when %s although the stopping test has not passed" % T.show(s.term, 3))

    def on_bind(self, E, st, node, d):
        """A condition stored under the name that becomes 'success'."""
        if not E.recording or d["name"] not in self.names(E, d["fid"]):
            return
        v = d["v"]
        if v.kind == "num" and not v.known and v.term is not None and v.term.op in ("lt", "le", "eq", "not", "and", "or"):
            lits = list(implied(v.term, True))
            if lits and not has_sym(v.term, "tol"):
                self.report(E, node, "success-without-test", "success is decided by %s, not by the stopping test" % T.show(v.term, 3))
            elif not st.ts.get("passed") and any(loose(b) for _, a, b in lits) and not any(is_tol(b) for _, a, b in lits):
                self.report(E, node, "success-without-test", "success is True when %s, also where the stopping test has not passed" % T.show(v.term, 3))

    def names(self, E, fid):
        import ast
        f = E.fnode.get(fid)
        if not hasattr(self, "_n"):
            self._n = {}
        if id(f) not in self._n:
            self._n[id(f)] = {k.value.id for c in ast.walk(f) if isinstance(c, ast.Call) for k in c.keywords
                              if k.arg == "success" and isinstance(k.value, ast.Name)} if f is not None else set()
        return self._n[id(f)]

from ..framework import Prop, Finding
from .. import runs as R, terms as T
from ..scen import stoch, sfw
from ..ops import loss_call

FMTS = ("csr", "dense", "csc", "coo", "dia", "bsr", "lil", "dok")
FAIL = ("missing_attr", "raise", "bad_call", "bad_operand", "call_noncallable", "unpack_mismatch", "bad_index", "axis_mismatch", "sp_to_numpy", "fmt_index")
TEXT = {"missing_attr": "an attribute is read that the matrix does not have in this format", "raise": "an exception is raised", "bad_call": "a call fails",
        "bad_operand": "an operation fails", "fmt_index": "the matrix is subscripted, which this format does not support",
        "sp_to_numpy": "the sparse matrix is passed to a function of NumPy that does not understand it", "axis_mismatch": "the dimensions do not agree"}


class Check(Prop):
    id = "C32"
    technique = "typestate of the storage format: every entry point is interpreted once per format, and the formats reaching each read of compressed-row internals are compared"
    rule = """Losses and stochastic solvers are interpreted with the data matrix given as a dense array and in each of SciPy's formats. No
    operation fails in one format that does not fail in compressed-row format; every read of .data, .indices or .indptr sees the same
    format whatever format was given; and no matrix is built from compressed arrays without its shape."""

    def runs(self):
        out = []
        for f in FMTS:
            for c in ("LogLoss", "SquareLoss", "HuberLoss"):
                for ic in ((False, True) if c == "LogLoss" else (False,)):
                    for w in ("call", "pair", "value", "lipschitz", "max_lipschitz", "hess", "hess_trace"):
                        if c != "LogLoss" and w.startswith("hess") or c == "HuberLoss" and w == "max_lipschitz":
                            continue
                        out.append(R._r("%s.%s[%s%s]" % (c, w, f, ",intercept" if ic else ""), loss_call(c, w, f, ic), fmt=f, group=(c, w, ic)))
            for n in ("minimize_saga", "minimize_svrg"):
                for k in ("none", "user"):
                    out.append(R._r("%s[%s,prox=%s]" % (n, f, k), stoch(n, (k,), fmt=f), fmt=f, group=(n, k)))
            out.append(R._r("minimize_vrtos[%s]" % f, stoch("minimize_vrtos", ("none", "none"), fmt=f), fmt=f, group=("minimize_vrtos",)))
            for v in ("SAG", "SAGA", "MHK", "LF"):
                out.append(R._r("minimize_sfw[%s,%s]" % (f, v), sfw(v, fmt=f), fmt=f, group=("minimize_sfw", v)))
        return out

    def setup(self, E, run):
        self.data = dict(fmt=run.meta["fmt"], group=run.meta["group"], fails={}, reads={}, run=run.name)

    def on_sp_internals(self, E, st, node, d):
        if E.recording:
            self.obligation("internals are read in one format only", E, node)
            at, fn = E.where(node)
            self.data["reads"].setdefault((at, node.col_offset, d["name"], fn), set()).add(str(d["fmt"]))

    def on_csr_noshape(self, E, st, node, d):
        if E.recording:
            self.obligation("dimensions are given, not inferred", E, node)
            self.report(E, node, "no-shape", "a matrix is built from its compressed arrays without its shape: its dimensions are inferred from the last "
                        "non-empty row and column", func=self.data["run"].split("[")[0])

    def inferred(self, E, st, node, v, name):
        if not E.recording or name.split(".")[-1] not in ("max", "amax", "unique", "bincount", "argmax"):
            return
        t = E.term_of(st, v)
        if t is not None and t.op == "part" and t.args[0].args[0] == "indices" and T.contains(t, lambda z: z is T.sym("A")):
            self.report(E, node, "inferred", "a dimension of the data is inferred from the column indices that are stored: an empty last column is lost",
                        func=self.data["run"].split("[")[0])

    def on_method(self, E, st, node, d):
        self.inferred(E, st, node, d["recv"], d["name"])

    def on_libcall(self, E, st, node, d):
        if d["args"]:
            self.inferred(E, st, node, d["args"][0], d["name"])

    def fail(ev):
        def h(self, E, st, node, d):
            if E.recording:
                self.obligation("no operation depends on the format", E, node)
                at, fn = E.where(node)
                self.data["fails"].setdefault((at, node.col_offset, ev, fn), str(d.get("name") or ""))
        return h

    for _e in FAIL:
        locals()["on_" + _e] = fail(_e)
    del fail, _e

    def combine(self, res, wr):
        by = {}
        for r in res:
            if r.get("data"):
                by.setdefault(r["data"]["group"], {})[r["data"]["fmt"]] = r["data"]
        for g, fs in by.items():
            base = fs.get("csr")
            if base is None:
                continue
            dense = fs.get("dense", base)
            for f, d in fs.items():
                for k, nm in d["fails"].items():
                    if k not in base["fails"] or k not in dense["fails"]:
                        at, _, ev, fn = k
                        self.add(wr, d["run"], at, "fails", "%s%s when the data matrix is given in %s format, but not in every format" % (
                            TEXT.get(ev, ev), " (%s)" % nm if nm else "", f), ev)
                for k, s in d["reads"].items():
                    at, _, nm, fn = k
                    s0 = base["reads"].get(k)
                    bad = s - (s0 or s)
                    if bad:
                        self.add(wr, d["run"], at, "internals", ".%s is read from a matrix that is still in %s format when the data matrix is given in %s format" % (
                            nm, "/".join(sorted(bad)), f), nm)

    def add(self, wr, run, at, rule, msg, detail):
        fn = run.split("[")[0]
        wr["findings"].append(Finding("%s:%s:%s:%s" % (self.id, fn, rule, detail), at, fn, msg, run))

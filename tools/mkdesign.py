"""Writes DESIGN.md: the machinery, then per property how it is decided, within what bounds, and which planted bugs it catches."""
import glob, importlib, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.mkmanifest_na import NA          # noqa: E402  reasons of the properties that are not claimed

HEAD = open(os.path.join(HERE, "tools", "design_head.md")).read()
TAIL = open(os.path.join(HERE, "tools", "design_tail.md")).read()

# id: (what is enumerated, what it cannot see)
SCOPE = {
 "C01": ("every public routine in each of its configurations, arrays owned by the caller as foreign heap objects", "effects of code the caller supplies; a library function that is not modelled is assumed not to write"),
 "C02": ("every solver started from an integer array and a list, every loss, penalty and oracle on integer data", "overflow of integers inside user functions"),
 "C03": ("every name, attribute chain and keyword of the package, and every attribute and call on the analysed paths", "attributes of unknown objects; the installed numpy/scipy/sklearn is the reference"),
 "C04": ("every combination of documented option values, with and without callback, with zero and any budget", "combinations that correlate two numeric arguments"),
 "C05": ("every (solver, operator) pair of the library and a direct call per operator", "operators written by the user"),
 "C06": ("every loop and every call cycle of the package (62 loops)", "loops whose measure is not linear, or is kept in a container, are reported as undecided, not as violations; iterators of user objects are assumed finite"),
 "C07": ("every solver with a certificate, all option branches, callback that may stop", "the numeric value of the certificate; the stopping quantity is recognised by its comparison with tol"),
 "C08": ("every solver, callback returning False / None / anything", "what the callback itself does"),
 "C09": ("each option with several undocumented strings, None and numbers; missing companions; empty budgets", "options that are validated by a callee outside the package"),
 "C10": ("each solver that evaluates user functions, with args given and not, every form of jac", "evaluations hidden in SciPy routines other than the finite differences"),
 "C11": ("the deterministic solvers, all branches, first and any later iteration (fixpoint)", "combinations whose coefficients merged at a join are undecided"),
 "C12": ("the splitting solvers, all branches", "the same; relaxation of a step by a constant factor is C13/C19 territory only where units see it"),
 "C13": ("every solver, loss, penalty, constraint and kernel", "wrong dimensionless constants"),
 "C14": ("every loss evaluation, every solver that averages over samples", "weights given by the user"),
 "C15": ("sparse kernels, helpers and stochastic solvers for CSR, every penalty factory", "wrong index of the right space"),
 "C16": ("SAGA, SVRG and VRTOS passes, with and without regularisation and trace", "the value of the variance reduction weights (N06)"),
 "C17": ("loss functions over the whole real line in pieces given by their masks and branches", "accuracy beyond overflow, log of zero and cancellation to a constant"),
 "C18": ("the pairwise variant on every path of one iteration, every pairwise oracle", "the representation an external oracle returns"),
 "C19": ("every built-in step-size rule and variant, first and any iteration", "a user-supplied step function"),
 "C20": ("every oracle of the library on any direction and point", "ties between vertices"),
 "C21": ("three losses x four storage formats x intercept x four evaluation histories", "floating-point rounding"),
 "C22": ("each loader from every state of the data directory reachable by earlier calls of the loaders", "a file changed by somebody else; contents are symbolic"),
 "C23": ("each loader: first call, second call, md5 check on and off", "the same"),
 "C24": ("image and matrix operators with non-square sizes", "square-only confusions"),
 "C25": ("each budget of each routine that announces it", "wording of the warning"),
 "C26": ("every routine of the package", "randomness inside user functions"),
 "C27": ("each epoch of the stochastic solvers as a typestate over drawn order, batches and passes", "more than one level of batch slicing; conservation is decided for contiguous tiling, splitting, modular and prefix forms"),
 "C28": ("every parallel kernel", "data races between processes"),
 "C29": ("every function handed to the JIT", "numba itself is not installed here: the rules restate its documented language"),
 "C30": ("every .rst file and example script", "text that names no object"),
 "C31": ("every control of every routine in every configuration", "a control that has an effect of the wrong size"),
 "C32": ("losses, helpers and stochastic solvers x 8 storage formats", "formats that SciPy may add"),
 "C33": ("each loader from every state an interruption at any file operation can leave, closed under repetition", "torn writes inside the file system; a rename is atomic"),
 "C34": ("three splitting solvers, all branches, every stopping path; values merged at joins are followed to each of the merged values", "a point that passed through a function outside the package"),
 "C35": ("all solvers with a certificate, every branch and stopping path", "a certificate rewritten as an algebraically different but equal expression over merged values is undecided"),
 "C36": ("five calls, freq None/1/2/3, with and without objective", "more than five calls (the counter is affine in the call number)"),
 "C37": ("every function of the package for effects; each operator evaluated, its parameters changed, evaluated again", "state that only shows after three evaluations, or on one branch of the first evaluation"),
 "C38": ("the three line searches, plain and accelerated, first trial and retries; the cases of a merged step size are paired up", "iterations whose start point was merged beyond recognition (the first iteration is always decided)"),
}

out = [HEAD.rstrip(), ""]
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
seeds = {}
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
variants = {}
for f in sorted(glob.glob(os.path.join(HERE, "tools", "variants", "*.txt"))):
    for m in re.finditer(r"(?m)^== (\S+) \| (\S+)(?: (\S+))? \|", open(f).read()):
        ids = m[3].split(",") if m[2] == "bad" else [os.path.basename(f)[:3].upper()]
        for i in ids:
            variants.setdefault(i, [0, 0])[0 if m[2] == "bad" else 1] += 1
na = []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "sa", "props", i.lower() + ".py")):
        na.append("* **%s %s** -- %s" % (i, p["title"], NA[i]))
        continue
    c = importlib.import_module("sa.props." + i.lower()).Check
    out += ["### %s %s" % (i, p["title"]), "",
            "* *Decided by* %s." % c.technique.rstrip("."),
            "* *Rule.* " + " ".join(c.rule.split()).rstrip(".") + ".",
            "* *Enumerated:* %s. *Not seen:* %s." % SCOPE[i],
            "* *Why tests cannot settle it:* %s" % p["why_tests_cant"],
            "* *Measured on:* %d breaking and %d behaviour-preserving variants in `tools/variants`%s." % (
                variants.get(i, [0, 0])[0], variants.get(i, [0, 0])[1],
                "; planted bugs caught: " + ", ".join("`%s`" % s for s, _ in seeds[i]) if i in seeds else ""), ""]
out += ["## Not applicable", "",
        "These are stated in properties.jsonl because users rely on them, but no sound static argument in reach decides them:", ""] + na + [""]
out += [TAIL.rstrip(), "", "## Planted bugs", "", "Each was confirmed (tests pass, demonstration fails only with the patch) and is caught by the check named.", "",
        "| bug | caught by | what it needs | what it breaks |", "|---|---|---|---|"]
for i in sorted(seeds):
    for s, m in seeds[i]:
        out.append("| `%s` | %s | %s | %s |" % (s, i, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(out), "lines")

"""Decide one property of /repo by static analysis of its current source.

usage: check.py --property Cxx [--thorough] [--root DIR] [--only SCENARIO] [-v]
"""
import argparse
import collections
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import framework  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--root", default=os.environ.get("SA_ROOT", "/repo"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    cls = importlib.import_module("sa.props." + pid.lower()).Check
    cls.thorough = a.thorough
    res = framework.analyse(cls, a.root, only=a.only)
    kn = framework.known(os.path.join(HERE, "known-findings.txt"))
    found = collections.OrderedDict()
    for r in res:
        for f in r["findings"]:
            found.setdefault(f.key, []).append(f)
    listed = [k for k in found if (pid, k) in kn]
    viol = [k for k in found if (pid, k) not in kn]
    obl = collections.Counter()
    sites = set()
    fns = set()
    und = collections.Counter()
    for r in res:
        obl.update(r["obl"])
        sites.update(tuple(s) for s in r["sites"])
        fns.update(r["fns"])
        for k, n in r["undecided"].items():
            und[k] += n
    errs = [(r["run"], r["err"]) for r in res if r["err"]]
    for e in errs:
        und["scenario not analysed: %s (%s)" % e] += 1
    out = os.path.join(HERE, "evidence") if a.root == "/repo" else os.path.join(a.root, "evidence")
    os.makedirs(out, exist_ok=True)
    rep = os.path.join(out, pid + ".findings.json")
    with open(rep, "w") as f:
        json.dump([x.dump() for k in found for x in found[k]], f, indent=1)
    ev = dict(
        property=pid, tier="thorough" if a.thorough else os.environ.get("VERIF_TIER", "quick"),
        seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
        coverage=dict(
            explanation=cls.rule.strip(),
            technique=cls.technique,
            configurations=len(res) - 1, configurations_analysed=[r["run"] for r in res if not r["err"]],
            functions=sorted(fns), obligations=dict(obl), obligations_total=sum(obl.values()),
            sites=len(sites), sites_list=["%s %s %s" % s for s in sorted(sites)][:400],
            undecided=dict(und), violations=viol, known_findings=listed, abstract_steps=sum(r["steps"] for r in res)),
        wall_s=round(time.time() - t0, 2))
    with open(os.path.join(out, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d configurations, %d obligations at %d sites, %d undecided, %.1fs" %
          (pid, len(res) - 1, sum(obl.values()), len(sites), len(und), time.time() - t0))
    if a.v:
        for k, n in sorted(obl.items()):
            print("  obligation %-60s %d" % (k, n))
        for k, n in sorted(und.items()):
            print("  undecided %s %d" % (k, n))
    for k in listed:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kn[(pid, k)], k))
    for k in viol:
        f = found[k][0]
        print("  %s in %s: %s  [%s]  (%s; %d configuration(s))" % (f.where, f.func, f.message, k, f.run, len(found[k])))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())

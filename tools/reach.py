"""Development aid: records which modules each scenario reaches (used by mut.py to skip unaffected scenarios)."""
import sys, json, importlib, os
sys.path.insert(0, "/verif")
sys.setrecursionlimit(20000)
from sa import framework
out = {}
for f in sorted(os.listdir("/verif/sa/props")):
    if not f.startswith("c") or not f.endswith(".py"):
        continue
    cls = importlib.import_module("sa.props." + f[:-3]).Check
    names = {r.name for r in cls().runs()}
    if names <= set(out):
        continue
    for r in framework.analyse(cls):
        if r["run"] != "whole program":
            out[r["run"]] = sorted({".".join(x.split(".")[:2]) for x in r["fns"]})
json.dump(out, open("/tmp/sa_reach.json", "w"), indent=0)
print(len(out))

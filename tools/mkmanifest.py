"""Writes MANIFEST.json from the property modules present in sa/props."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.mkmanifest_na import NA
PENDING = "check under construction"
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "sa/props/%s.py" % pid.lower())):
        c = importlib.import_module("sa.props." + pid.lower()).Check
        cmd = "/opt/venv/bin/python /verif/check.py --property " + pid
        checks.append(dict(property=pid, quick_cmd=cmd, thorough_cmd=cmd + " --thorough", evidence_file="evidence/%s.json" % pid,
                           technique="static analysis: " + c.technique, level="other",
                           level_note=getattr(c, "note", "") or "Static analysis of /repo's current source; reports only definite violations, so constructs the abstract domains do not represent are counted as undecided rather than proved."))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, PENDING)))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -m compileall -q /verif/sa", checks=checks, not_applicable=na),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])

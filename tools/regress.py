"""Runs the checks on scratch variants of the sources.

tools/variants/*.txt hold variants:
  == <name> | bad C13,C12 | file.py          (a change that breaks the listed properties)
  == <name> | ok | file.py                    (a change that keeps the behaviour)
  <<<<
  old text
  ====
  new text
  >>>>
usage: regress.py [--props C13,C12 | --all] [name-substring ...]
"""
import os, re, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))

def load():
    out = []
    d = os.path.join(HERE, "variants")
    for f in sorted(os.listdir(d)):
        txt = open(os.path.join(d, f)).read()
        for blk in re.split(r"(?m)^== ", txt)[1:]:
            head, body = blk.split("\n", 1)
            name, verdict, file = [x.strip() for x in head.split("|")]
            edits = re.findall(r"(?ms)^<<<<(?: ([\w./]+))?\n(.*?)^====\n(.*?)^>>>>", body)
            out.append((name, verdict, file, [(a or file, b, c) for a, b, c in edits]))
    return out

PROPS = sorted(x[:-3].upper() for x in os.listdir("/verif/sa/props") if x.startswith("c") and x.endswith(".py"))

def run(v, props):
    name, verdict, file, edits = v
    d = tempfile.mkdtemp(prefix="rg")
    res = []
    try:
        for x in ("copt", "examples", "doc", "setup.py", "README.md"):
            s = os.path.join("/repo", x)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(d, x))
            elif os.path.exists(s):
                shutil.copy(s, d)
        mods = set()
        if not edits:
            return name, verdict, [("-", "NO EDITS")]
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, verdict, [("-", "EDIT NOT FOUND " + repr(old[:60]))]
            open(p, "w").write(s.replace(old, new, 1))
            if f.startswith("copt/"):
                mods.add("copt." + f[5:-3])
        for f, _, _ in edits:
            if f.endswith(".py"):
                compile(open(os.path.join(d, f)).read(), f, "exec")
        want = verdict.split()[1].split(",") if verdict.startswith("bad") else []
        ps = props if props else (want if want else PROPS)
        for q in ps:
            if not os.path.exists("/verif/sa/props/%s.py" % q.lower()):
                continue
            r = subprocess.run([sys.executable, "/verif/check.py", "--property", q, "--root", d], capture_output=True, text=True,
                               env=dict(os.environ, SA_JOBS="1", SA_TOUCH=",".join(mods)))
            lines = [l for l in r.stdout.splitlines() if l.startswith("  ")]
            caught = r.returncode == 1
            if verdict.startswith("bad") and q in want:
                tag = "caught" if caught else "MISSED"
            else:
                tag = "FALSE ALARM" if caught and verdict == "ok" else ("also" if caught else "quiet")
            if r.returncode not in (0, 1) or r.stderr:
                tag += " ERR " + r.stderr[-300:]
            if tag != "quiet":
                res.append((q, tag + " " + (lines[0].strip()[:230] if lines and tag != "quiet" else "")))
    finally:
        shutil.rmtree(d)
    return name, verdict, res

if __name__ == "__main__":
    a = sys.argv[1:]
    props = None
    if a and a[0] == "--props":
        props = a[1].split(","); a = a[2:]
    elif a and a[0] == "--all":
        props = PROPS; a = a[1:]
    vs = [v for v in load() if not a or any(x in v[0] for x in a)]
    if props:
        vs = [v for v in vs if v[1] == "ok" or set(props) & set(v[1].split()[1].split(","))] if len(props) < len(PROPS) else vs
    with ThreadPoolExecutor(8) as ex:
        for name, verdict, res in ex.map(lambda v: run(v, props), vs):
            bad = [x for x in res if x[1].startswith(("MISSED", "FALSE", "EDIT")) or "ERR" in x[1]]
            print(("** " if bad else "ok ") + name, "|", verdict)
            for q, t in res:
                print("     ", q, t)

"""Builds /verif/seeded/<id>/ from a description file and confirms it in a scratch copy.

usage: mkseed.py DESC...   each DESC holds blocks:
  == <id> | <property> | <file>
  needs: ...
  breaks: ...
  <<<< [file] / ==== / >>>>   (edits, whole lines)
  demo:
  <python source up to the next ==, exits non-zero when the property is broken>
"""
import json, os, re, shutil, subprocess, sys, tempfile
BASE = json.load(open("/opt/vp/BASELINE.json"))
DEMO = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD:$PYTHONPATH"
exec /opt/venv/bin/python "$here/demo.py"
"""

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)

def one(blk, tests):
    head, body = blk.split("\n", 1)
    sid, prop, file = [x.strip() for x in head.split("|")]
    edits = re.findall(r"(?ms)^<<<<(?: ([\w./]+))?\n(.*?)^====\n(.*?)^>>>>", body)
    needs = re.search(r"(?m)^needs: (.*)$", body).group(1)
    breaks = re.search(r"(?m)^breaks: (.*)$", body).group(1)
    demo = body.split("\ndemo:\n", 1)[1].rstrip() + "\n"
    out = os.path.join("/verif/seeded", sid)
    os.makedirs(out, exist_ok=True)
    open(out + "/demo.py", "w").write(demo)
    open(out + "/demo.sh", "w").write(DEMO)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
    d = tempfile.mkdtemp(prefix="seed")
    try:
        w = d + "/r"
        shutil.copytree("/repo", w, symlinks=True)
        env = dict(os.environ, PYTHONPATH=w)
        a = sh("bash %s/demo.sh" % out, w, env=env)
        for f, old, new in edits:
            p = os.path.join(w, f or file)
            s = open(p).read()
            assert s.count(old) >= 1, ("EDIT NOT FOUND", sid, old[:80])
            open(p, "w").write(s.replace(old, new, 1))
        diff = sh("git diff", w).stdout
        open(out + "/patch.diff", "w").write(diff)
        b = sh("bash %s/demo.sh" % out, w, env=env)
        line = "%s demo clean=%s patched=%s" % (sid, a.returncode, b.returncode)
        if a.returncode:
            line += "\n  clean: " + (a.stdout + a.stderr)[-400:]
        if b.returncode:
            line += "\n  patched: " + (["-"] + (b.stdout + b.stderr).strip().splitlines())[-1][-160:]
        if tests:
            t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p seed_numpy -n 4 --timeout=300 2>&1 | tail -5", w,
                   env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH="/opt/vp:" + w, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg"))
            line += "\n  tests: " + " / ".join(t.stdout.strip().splitlines()[-2:])[-300:]
        print(line, flush=True)
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    for f in args:
        for blk in re.split(r"(?m)^== ", open(f).read())[1:]:
            one(blk, "--no-tests" not in sys.argv)

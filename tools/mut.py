"""Apply textual edits to a scratch copy of /repo and run checks on it.

usage: mut.py PROPS file 'old' 'new' [file old new ...]      (PROPS: comma list or 'all')
"""
import os, shutil, subprocess, sys, tempfile, json

def main():
    props = sys.argv[1]
    rest = sys.argv[2:]
    d = tempfile.mkdtemp(prefix="mut")
    try:
        for x in ("copt", "examples", "doc", "docs", "setup.py", "README.md", "README.rst"):
            s = os.path.join("/repo", x)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(d, x))
            elif os.path.exists(s):
                shutil.copy(s, d)
        for i in range(0, len(rest), 3):
            f, old, new = rest[i:i + 3]
            p = os.path.join(d, f)
            s = open(p).read()
            old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
            if old not in s:
                print("NOT FOUND", f, repr(old)); return 2
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        if props == "all":
            props = ",".join(sorted(x[:-3].upper() for x in os.listdir("/verif/sa/props") if x.startswith("c") and x.endswith(".py")))
        for q in props.split(","):
            r = subprocess.run([sys.executable, "/verif/check.py", "--property", q, "--root", d], capture_output=True, text=True, env=dict(os.environ, SA_NOEV="1"))
            out = r.stdout.strip().splitlines()
            if r.returncode or r.stderr or os.environ.get("V"):
                print(q, r.returncode, "\n   ".join([""] + [l[:300] for l in out[1:8]]), r.stderr[-800:])
            else:
                print(q, "quiet", out[0] if out else "")
    finally:
        shutil.rmtree(d)
main()

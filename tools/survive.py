"""Which 'bad' variants pass the repository's tests (development aid): survive.py OUT [name-substring ...]"""
import os, shutil, subprocess, sys, tempfile, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import regress

def main():
    out, names = sys.argv[1], sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    for name, verdict, file, edits in regress.load():
        if not verdict.startswith("bad") or (names and not any(n in name for n in names)):
            continue
        if os.path.exists(out) and any(l.split()[1] == name for l in open(out)):
            continue
        d = tempfile.mkdtemp(prefix="sv")
        try:
            r = os.path.join(d, "repo")
            shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns(".git"))
            ok = True
            for f, old, new in edits:
                p = os.path.join(r, f)
                s = open(p).read()
                ok = ok and old in s
                open(p, "w").write(s.replace(old, new, 1))
            if not ok:
                verdict = "EDIT"
            else:
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH="/opt/vp:" + r, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg")
                q = subprocess.run(["nice", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "seed_numpy", "-n", "4", "--timeout=300", "-k", os.environ.get("SV_K", "")],
                                   cwd=r, env=env, capture_output=True, text=True)
                verdict = "SURVIVES" if q.returncode == 0 else "killed" if q.returncode == 1 else "rc%d" % q.returncode
        finally:
            shutil.rmtree(d)
        open(out, "a").write("%s %s\n" % (verdict, name))
main()

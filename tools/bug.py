"""Development tool: bug.py SPEC.py [--nocheck]
SPEC defines ID, PROPERTY, EDITS [(file, old, new)], DEMO (python source, exits
nonzero on the broken tree), NEEDS, BREAKS.  Applies the edits to a scratch copy
of /repo, confirms that the tests pass and the demo separates the trees, writes
/verif/seeded/ID and runs the property's quick check against the copy."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def run(cmd, cwd, repo, **kw):
    env = dict(os.environ, PYTHONPATH=repo, MPLBACKEND="Agg",
               PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", **kw)
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True,
                          text=True)


def main(path):
    s = runpy.run_path(path)
    bid = s["ID"]
    tmp = tempfile.mkdtemp(prefix="bug-")
    repo = os.path.join(tmp, "repo")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        out = os.path.join(HERE, "seeded", bid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "demo.py"), "w").write(s["DEMO"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\nexport MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 '
            'PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        demo = ["bash", os.path.join(out, "demo.sh")]
        r = run(demo, repo, repo)
        ok = r.returncode == 0
        print(bid, "demo on clean tree:", r.returncode,
              "" if ok else r.stdout[-800:] + r.stderr[-1500:])
        for f, old, new in s["EDITS"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        patch = subprocess.run(["git", "-C", repo, "diff"],
                               capture_output=True, text=True).stdout
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"],
                   "what_it_breaks": s["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        r = run(demo, repo, repo)
        ok &= r.returncode != 0
        print(bid, "demo on broken tree:", r.returncode,
              (r.stdout + r.stderr).strip()[-200:])
        r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                 "tests"], repo, repo)
        ok &= r.returncode == 0
        print(bid, "tests:", r.stdout.strip().splitlines()[-1])
        if "--nocheck" not in sys.argv:
            r = run([PY, os.path.join(HERE, "run.py"), s["PROPERTY"]], HERE,
                    repo, VERIF_DEV_REPO=repo)
            print(bid, "check exit", r.returncode,
                  "CAUGHT" if r.returncode == 1 else "MISSED",
                  [ln[4:160] for ln in r.stdout.splitlines()
                   if ln.startswith("---")][:4])
        print(bid, "VALID" if ok else "NOT VALID")
    finally:
        shutil.rmtree(tmp)


main(sys.argv[1])

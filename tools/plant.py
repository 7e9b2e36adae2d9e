#!/usr/bin/env python3
"""Make /verif/seeded/<id> from a change: plant.py ID PROPERTY FILE OLD NEW [occurrence] (NEEDS, BREAKS and the demo on stdin, split by lines of ---).
Several edits: FILE may be repeated via a JSON list [[file, old, new, occurrence], ...] given as FILE alone.
Confirms, in a scratch copy, that the demo passes without and fails with the change and that the stable tests pass with it."""
import sys, os, json, subprocess, shutil, re, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def edit(root, edits):
    for f, old, new, k in edits:
        p = os.path.join(root, f)
        parts = open(p).read().split(old)
        assert len(parts) > k + 1, ("not found", f, old[:60])
        open(p, "w").write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))


def main():
    spec = json.load(sys.stdin)
    only = sys.argv[1:]
    for s in spec:
        if only and s["id"] not in only: continue
        d = os.path.join(HERE, "seeded", s["id"])
        tmp = tempfile.mkdtemp(prefix="plant")
        try:
            r = os.path.join(tmp, "repo")
            subprocess.check_call(["git", "clone", "-q", "/repo", r])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "demo.py"), "w").write(s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# run with cwd = the repository\nhere=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec %s "$here/demo.py"\n' % PY)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            a = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            edit(r, [(e[0], e[1], e[2], e[3] if len(e) > 3 else 0) for e in s["edits"]])
            b = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "xdist.plugin", "-n", "4", "test"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", OMP_NUM_THREADS="1"))
            tests = t.stdout.strip().split("\n")[-1]
            failed = re.findall(r"FAILED (\S+)", t.stdout)
            diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
            ok = a.returncode == 0 and b.returncode != 0 and "11 passed" in tests
            print(s["id"], "OK" if ok else "BAD", "clean", a.returncode, "patched", b.returncode, tests, "" if a.returncode == 0 else a.stdout[-800:], "" if ok else b.stdout[-300:], flush=True)
            if not ok:
                shutil.rmtree(d)
                continue
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()

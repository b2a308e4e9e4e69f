"""Development helper: make and confirm planted bugs.

make(id, prop, file, old, new, demo, needs, breaks)  writes /verif/seeded/<id>/
python3 tools/plant.py confirm ID...   runs stable tests and the demo in a scratch copy with and without the patch"""
import json
import os
import subprocess
import sys
import tempfile

V = "/verif/seeded"
PY = "/opt/venv/bin/python"


def make(id, prop, edits, demo, needs, breaks):
    d = f"{V}/{id}"
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="plant_")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.run(f"cp -a /repo {tmp}/r", shell=True, check=True)
    for f, old, new in edits:
        p = f"{tmp}/r/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    out = subprocess.run(["git", "-C", f"{tmp}/r", "diff"], capture_output=True, text=True).stdout
    open(f"{d}/patch.diff", "w").write(out)
    open(f"{d}/demo.py", "w").write(demo)
    with open(f"{d}/demo.sh", "w") as f:
        f.write('#!/bin/bash\n# exit 0: behaviour as specified; nonzero: broken\n'
                'export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    subprocess.run(["rm", "-r", tmp])
    print("made", id)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed"):
        if k in b and isinstance(b[k], list):
            return set(b[k])
    raise SystemExit(str(b)[:300])


def confirm(id):
    tmp = tempfile.mkdtemp(prefix="plant_")
    r = f"{tmp}/r"
    try:
        subprocess.run(f"cp -a /repo {r}", shell=True, check=True)
        env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   OPENBLAS_NUM_THREADS="1", PYTHONPATH=f"{r}:/opt/vp/pytest_plugins", LUMOS_RUN_DIR=tmp)
        ok = subprocess.run(["bash", f"{V}/{id}/demo.sh"], cwd=r, env=env, capture_output=True, text=True)
        a = subprocess.run(["git", "-C", r, "apply", f"{V}/{id}/patch.diff"], capture_output=True, text=True)
        if a.returncode:
            return f"{id}: patch does not apply {a.stderr}"
        bad = subprocess.run(["bash", f"{V}/{id}/demo.sh"], cwd=r, env=env, capture_output=True, text=True)
        demo = f"demo clean={ok.returncode} patched={bad.returncode}"
        if ok.returncode:
            demo += " CLEAN FAILS " + (ok.stdout + ok.stderr)[-800:]
        if bad.returncode == 0:
            demo += " PATCHED PASSES"
        else:
            demo += " | " + (bad.stdout + bad.stderr).strip().splitlines()[-1][:200]
        if "--demo" in sys.argv:
            return f"{id}: {demo}"
        xml = f"{tmp}/j.xml"
        subprocess.run([PY, "-m", "pytest", "-q", f"--rootdir={r}", "-p", "no:cacheprovider", "-p", "lumos_worker_cwd",
                        "-n", "8", "--dist", "loadscope", "--timeout=600", "--continue-on-collection-errors",
                        "-o", "junit_family=xunit2", f"--junitxml={xml}", f"{r}/tests", f"{r}/examples"],
                       cwd=r, env=env, capture_output=True, timeout=900)
        subprocess.run([PY, "/opt/vp/results.py", f"{tmp}/o.json", f"junit:{xml}"], capture_output=True)
        o = json.load(open(f"{tmp}/o.json"))
        passed = None
        for k in ("pass", "passed"):
            if k in o:
                passed = set(o[k])
        if passed is None:
            return f"{id}: {demo} results {str(o)[:300]}"
        lost = sorted(stable() - passed)
        return f"{id}: {demo}; tests lost: {len(lost)} {lost[:4]}"
    finally:
        subprocess.run(["rm", "-r", tmp])


if __name__ == "__main__":
    if sys.argv[1] == "confirm":
        for i in sys.argv[2:]:
            if not i.startswith("-"):
                print(confirm(i), flush=True)

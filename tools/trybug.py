"""Development helper: apply small edits to scratch copies of /repo and say whether the runtime contracts catch them.

python3 tools/trybug.py FILE [-p N] [ID...]     FILE defines BUGS = [(id, property, path, old, new), ...]"""
import os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor


def one(b):
    i, p, path, old, new = b
    t = tempfile.mkdtemp(prefix="try_")
    try:
        shutil.copytree("/repo", t + "/r", ignore=shutil.ignore_patterns(".git", "__pycache__"))
        f = f"{t}/r/lumos/{path}"
        s = open(f).read()
        if s.count(old) < 1:
            return f"{i} {p}: text not found"
        open(f, "w").write(s.replace(old, new, 1))
        env = {**os.environ, "LUMVER_REPO": t + "/r", "JAX_PLATFORMS": "cpu", "PYTHONDONTWRITEBYTECODE": "1"}
        r = subprocess.run(["./lc", p], cwd="/verif", env=env, capture_output=True, text=True, timeout=800)
        out = [l for l in (r.stdout + r.stderr).splitlines() if ("VIOL" in l or "viol" in l) and "roll of a row vector" not in l]
        if out:
            return f"{i} {p}: caught  {out[0][:160]}"
        r = subprocess.run(["./lv", p], cwd="/verif", env=env, capture_output=True, text=True, timeout=890)
        last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr.strip()[-200:]
        return f"{i} {p}: MISSED by the runtime contracts; deductive: {last[:150]}"
    except Exception as e:
        return f"{i} {p}: {type(e).__name__} {e}"
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    a = sys.argv[1:]
    n = int(a.pop(a.index("-p") + 1)) if "-p" in a else 4
    if "-p" in a:
        a.remove("-p")
    bugs = runpy.run_path(a[0])["BUGS"]
    bugs = [b for b in bugs if len(a) == 1 or b[0] in a[1:]]
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, bugs):
            print(r, flush=True)

"""Runtime contract checking of the real code on generated inputs.

Used to look for a failing input (replay of a violation) and as the bounded stand-in for the parts
the deductive check cannot reach.  It never counts as proof."""
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback
import zlib

import numpy as np

CASES = []      # (name, fn, quick count, thorough count)


class Violation(Exception):
    pass


class Skip(Exception):
    pass


def case(quick=20, thorough=None):
    def deco(fn):
        CASES.append((fn.__name__, fn, quick, thorough or quick * 10))
        return fn
    return deco


def require(cond, msg):
    if not bool(cond):
        raise Violation(msg)


def close(a, b, msg, rtol=1e-8, atol=1e-8):
    """Arrays equal up to rounding (scaled by the magnitude of the expected value)."""
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation(f"{msg}: shape {a.shape}, expected {b.shape}")
    if a.size == 0:
        return
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not (fa == fb).all() or not (a[~fa] == b[~fb]).all() and not (np.isnan(a[~fa]) == np.isnan(b[~fb])).all():
        raise Violation(f"{msg}: non-finite entries differ: {a} vs {b}"[:600])
    d = np.abs(a - b)[fa]
    lim = atol + rtol * np.maximum(1.0, np.max(np.abs(b[fa]), initial=0.0))
    if d.size and d.max() > lim:
        k = np.unravel_index(np.argmax(np.where(fa, np.abs(np.where(fa, a, 0) - np.where(fa, b, 0)), 0)), a.shape)
        raise Violation(f"{msg}: entry {tuple(int(i) for i in k)} is {a[k]!r}, expected {b[k]!r} "
                        f"(largest difference {d.max():.3g})")


def equal(a, b, msg):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not (a == b).all():
        raise Violation(f"{msg}: {a.tolist()!r} expected {b.tolist()!r}"[:600])


def raises(exc, f, msg):
    try:
        f()
    except exc:
        return
    raise Violation(msg)


def vec(rng, n):
    """A random vector; sometimes with zeros, equal, whole or one-signed entries."""
    x = rng.normal(size=n)
    k = rng.integers(14)
    if k == 0:
        x[rng.random(n) < 0.5] = 0.0
    elif k == 1:
        x = np.round(x)
    elif k == 2:
        x[...] = x[:1] if n else 0.0
    elif k == 3:
        x[...] = rng.integers(2)
    elif k == 4:
        x = np.abs(x) * (1 if rng.integers(2) else -1)
    return x


def factor(rng):
    """A factor of the objective: any number, often zero or one."""
    return [0.0, 1.0, float(rng.normal()), float(rng.normal())][int(rng.integers(4))]


def relaid(rng, x):
    """An array equal to x in some memory layout: column-major, reversed, strided, a slice of a wider one."""
    x = np.asarray(x)
    k = int(rng.integers(5)) if x.ndim else 0
    if k == 1:
        return np.array(x, order="F")
    if k == 2:
        return x[::-1].copy()[::-1]
    if k == 3:
        y = np.zeros((2 * len(x),) + x.shape[1:], x.dtype)
        y[::2] = x
        return y[::2]
    if k == 4:
        y = np.zeros(x.shape[:-1] + (x.shape[-1] + 2,) if x.ndim > 1 else x.shape + (2,), x.dtype)
        v = y[..., 1:-1] if x.ndim > 1 else y[:, 0]
        v[...] = x
        return v
    return x.copy()


def memo(rng, f):
    """f, or f returning the same array object whenever it is called with the same arguments."""
    if rng.integers(2):
        return f
    seen = {}

    def g(*a):
        k = tuple((np.shape(x), np.asarray(x).tobytes()) if isinstance(x, (np.ndarray, float, int)) else id(x) for x in a)
        if k not in seen:
            seen[k] = (f(*a), a)
        return seen[k][0]
    return g


def twice(rng, f, *args):
    """f(*args), which must leave the arguments alone, give the same again (also after an evaluation elsewhere), and
    whose answer must not change afterwards."""
    a = [relaid(rng, x) if isinstance(x, np.ndarray) else x for x in args]
    keep = [np.copy(x) if isinstance(x, np.ndarray) else x for x in a]
    r = f(*a)
    for x, k in zip(a, keep):
        if isinstance(x, np.ndarray):
            equal(x, k, "an argument of the call was modified")
    first = np.array(r, copy=True)
    if rng.integers(2):
        f(*[x + 0.1 * rng.normal(size=x.shape) if isinstance(x, np.ndarray) and x.dtype == float else x for x in a])
        close(r, first, "an earlier answer, after another evaluation", rtol=1e-12, atol=1e-12)
    close(f(*a), first, "the same evaluation again", rtol=1e-11, atol=1e-11)
    return r


def classify(e):
    """'violation' | 'skip': an exception that escaped a case."""
    if isinstance(e, Violation):
        return "violation"
    if isinstance(e, Skip):
        return "skip"
    tb = traceback.extract_tb(e.__traceback__)
    in_repo = any("/lumos/" in f.filename for f in tb)
    if not in_repo:
        if isinstance(e, ImportError):
            return "skip"
        s = str(e)
        if isinstance(e, AttributeError) and ("'_" in s):
            return "skip"
        if isinstance(e, TypeError) and ("argument" in s):
            return "skip"
    return "violation"


def run_case(name, fn, seed, i):
    rng = np.random.default_rng([seed, zlib.crc32(name.encode()), i])
    try:
        d = fn(rng)
        return ("ok", d)
    except Exception as e:     # noqa
        c = classify(e)
        if isinstance(e, (Violation, Skip)):
            return (c, str(e))
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in reversed(tb)
                      if "/lumos/" in f.filename), f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}")
        return (c, f"{type(e).__name__}: {e} at {where}")


def _work(k, seed, tier, budget, conn, start):
    name, fn, q, t = CASES[k]
    n, more = (q, max(q, min(t, 5 * q))) if tier == "quick" else (t, t)     # quick cases that are fast do some more
    t0 = time.time()
    out = dict(kind=name, evaluations=0, distinct=0, violations=[], skipped=[], samples=[], wall=0.0)
    seen = set()
    sys.stdout = open(os.devnull, "w")
    scratch = tempfile.mkdtemp(prefix="lumver_case_")   # the casadi backend writes files into the current directory
    os.chdir(scratch)
    for i in range(start, start + more):
        if time.time() - t0 > budget or i >= start + n and time.time() - t0 > min(8, budget / 2):
            break
        st, d = run_case(name, fn, seed, i)
        out["evaluations"] += 1
        if st == "ok":
            key = json.dumps(d, default=str, sort_keys=True) if d is not None else str(i)
            if key not in seen:
                seen.add(key)
            if len(out["samples"]) < 3:
                out["samples"].append(d)
        elif st == "skip":
            if len(out["skipped"]) < 5:
                out["skipped"].append(d)
        else:
            out["violations"].append(dict(kind=name, seed=seed, index=i, message=d[:1500]))
            if len(out["violations"]) >= 5:
                break
    out["distinct"] = len(seen)
    out["wall"] = time.time() - t0
    os.chdir("/")
    shutil.rmtree(scratch, ignore_errors=True)
    conn.send(out)
    conn.close()


def run_all(seed, tier, budget, jobs=4, only=None):
    mpc = mp.get_context("fork")
    todo = [k for k in range(len(CASES)) if only is None or CASES[k][0] == only]
    running, res = [], []
    while todo or running:
        while todo and len(running) < jobs:
            k = todo.pop(0)
            a, b = mpc.Pipe(False)
            p = mpc.Process(target=_work, args=(k, seed, tier, budget, b, 0))
            p.start()
            b.close()
            running.append((k, p, a, time.time()))
        time.sleep(0.02)
        for r in list(running):
            k, p, a, ts = r
            got = None
            if a.poll():
                try:
                    got = a.recv()
                except EOFError:
                    got = None
                    p.join(5)
            if got is None and (not p.is_alive() or time.time() - ts > budget * 2 + 120) and not a.poll():
                p.kill()
                got = dict(kind=CASES[k][0], evaluations=0, distinct=0, violations=[], samples=[],
                           skipped=[f"worker ended (exit code {p.exitcode}) or ran out of time"],
                           wall=time.time() - ts)
            if got is not None:
                res.append(got)
                p.join(2)
                running.remove(r)
    res.sort(key=lambda r: r["kind"])
    return res


def replay(v):
    for name, fn, _, _ in CASES:
        if name == v["kind"]:
            with tempfile.TemporaryDirectory(prefix="lumver_case_") as d:
                os.chdir(d)
                try:
                    return run_case(name, fn, v["seed"], v["index"])
                finally:
                    os.chdir("/")
    return ("skip", "no such case")

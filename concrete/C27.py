"""Runtime contract: mapping over a batch is a loop over the batch."""
import collections

import casadi
import numpy as np

import lumos.numpy as lnp
from concrete.base import case, require, close, equal, raises, relaid

Single = collections.namedtuple("Single", "only")
Pair = collections.namedtuple("Pair", "first second")


def arguments(rng, nargs, batch, maxdim=2):
    """Arguments with a mapped/unmapped marker; at least one mapped."""
    while True:
        axes = [None if rng.random() < 0.4 else 0 for _ in range(nargs)]
        if any(a == 0 for a in axes):
            break
    args = []
    for a in axes:
        shape = tuple(int(n) for n in rng.integers(1, 4, size=int(rng.integers(0, maxdim + 1))))
        if a == 0:
            shape = (batch,) + shape
        elif rng.random() < 0.3:
            shape = (int(rng.integers(1, 7)),) + shape      # an unmapped array, of some other length
        args.append(relaid(rng, rng.normal(size=shape)))
    return axes, args


def the_args(axes, args, k):
    return [a if ax is None else a[k] for ax, a in zip(axes, args)]


@case(quick=400)
def lmap(rng):
    batch = int(rng.integers(1, 6))
    n = int(rng.integers(1, 5))
    axes, args = arguments(rng, n, batch)
    special = None
    if rng.random() < 0.3 and None in axes:         # a parameter that is no array at all
        k = axes.index(None)
        args[k] = [{"a": 2.0}, "text", None, 3.0][int(rng.integers(4))]
        special = k
    if all(a == 0 for a in axes) and rng.integers(2):
        spec = 0
    else:
        spec = list(axes)
    kind = int(rng.integers(7))
    W = rng.normal(size=n)

    def f(*a):
        t = 0.0
        for j, v in enumerate(a):
            if j == special:
                t = t + (v["a"] if isinstance(v, dict) else len(v) if isinstance(v, str) else 0.0 if v is None else v)
            else:
                v = np.asarray(v)
                t = t + W[j] * np.sum(np.sin(v) * (1 + np.arange(v.size)).reshape(v.shape)) + j * v.size
        if kind == 0:
            return t
        if kind == 1:
            return np.array([t, t * t, 1.0])
        if kind == 2:
            return np.arange(6.0).reshape(2, 3) * t
        if kind == 3:
            return (np.array([t, 2 * t]), np.array(t * 3))
        if kind >= 5:
            return Single(np.array([t, 3 * t])) if kind == 5 else (np.array([t, 3 * t]),)
        return Pair(np.array([t]), np.ones((2, 2)) * t)
    before = [np.copy(a) if isinstance(a, np.ndarray) else a for a in args]
    g = lnp.lmap(f, in_axes=spec) if spec != 0 or rng.integers(2) else lnp.lmap(f)
    for _ in range(2):
        out = g(*args)
        exp = [f(*the_args(axes, args, k)) for k in range(batch)]
        if kind <= 2:
            close(out, np.stack(exp), f"lmap, axes {axes}")
        else:
            require(type(out) is type(exp[0]), f"lmap returns {type(out).__name__} for {type(exp[0]).__name__}")
            require(len(out) == len(exp[0]), "number of outputs")
            for q in range(len(out)):
                close(out[q], np.stack([e[q] for e in exp]), f"lmap output {q}, axes {axes}")
    for a, b in zip(args, before):
        if isinstance(b, np.ndarray):
            equal(a, b, "an argument was modified")
    return dict(batch=batch, kind=kind, axes=str(axes))


def symbolic(rng, sizes, nout, sparse):
    """A casadi function of column vectors (with its numpy value, entry by entry)."""
    xs = [casadi.SX.sym(f"x{k}", n) for k, n in enumerate(sizes)]
    z = casadi.vertcat(*xs)
    n = int(sum(sizes))
    outs, vals = [], []
    for _ in range(nout):
        if sparse:
            m, q = int(rng.integers(1, 5)), int(rng.integers(1, 5))
            mask = rng.random((m, q)) < 0.5
            if not mask.any():
                mask[0, 0] = True
            A = rng.normal(size=(m, q, n))
            M = casadi.SX(m, q)
            for i in range(m):
                for j in range(q):
                    if mask[i, j]:
                        M[i, j] = casadi.sin(casadi.mtimes(casadi.DM(A[i, j]).T, z))
            outs.append(M)
            vals.append(lambda v, A=A, mask=mask: np.array([np.sin(A[i, j] @ v) for j in range(mask.shape[1])
                                                            for i in range(mask.shape[0]) if mask[i, j]]))
        else:
            m = int(rng.integers(1, 5))
            A = rng.normal(size=(m, n))
            outs.append(casadi.sin(casadi.mtimes(casadi.DM(A), z)))
            vals.append(lambda v, A=A: np.sin(A @ v))
    return casadi.Function("f", xs, outs), vals


@case(quick=200)
def cmap(rng):
    n = int(rng.integers(1, 4))
    while True:
        axes = [None if rng.random() < 0.4 else 0 for _ in range(n)]
        if 0 in axes:
            break
    # the batch axis comes first; scalars per element are plain vectors
    sizes = [int(k) for k in rng.integers(1, 4, size=n)]
    sparse = bool(rng.integers(2))
    nout = 1 if sparse else int(rng.integers(1, 4))
    f, vals = symbolic(rng, sizes, nout, sparse)
    spec = 0 if all(a == 0 for a in axes) and rng.integers(2) else list(axes)
    g = lnp.cmap(f, in_axes=spec, num_workers=int(rng.integers(1, 5)), sparse=sparse)
    for batch in rng.integers(1, 6, size=3):
        batch = int(batch)
        args = [rng.normal(size=(batch, s)) if a == 0 else rng.normal(size=s) for a, s in zip(axes, sizes)]
        for k in range(n):
            if axes[k] == 0 and sizes[k] == 1 and rng.integers(2):
                args[k] = args[k][:, 0]
        args = [relaid(rng, a) for a in args]
        before = [a.copy() for a in args]
        out = g(*args)
        v = [np.concatenate([np.ravel(t) for t in the_args(axes, args, k)]) for k in range(batch)]
        out = (out,) if not isinstance(out, tuple) else out
        require(len(out) == nout, f"{len(out)} outputs, expected {nout}")
        for q in range(nout):
            close(out[q], np.stack([vals[q](t) for t in v]), f"cmap output {q}, axes {axes}, batch {batch}")
        for a, b in zip(args, before):
            equal(a, b, "an argument was modified")
    return dict(axes=str(axes), sparse=sparse)

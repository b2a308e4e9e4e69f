"""The trusted numpy contracts (lumver.symnp) against numpy itself.

Every snippet is run once with symbolic sizes on every path; each path gives a term for a generic element.  The terms
are then evaluated at concrete sizes and contents, and compared with what numpy computes there: bounded validation of
assumed contracts, never counted as proof.

python -m lumver.validate [--seed N] [-v]"""
import argparse
import itertools
import math
import sys
import time

import numpy as np

from lumver import symnp, terms as t
from lumver.ctx import CTX, Infeasible
from lumver.tensor import T

FN = {"sin": math.sin, "cos": math.cos, "exp": math.exp, "log": math.log, "sqrt": math.sqrt, "abs": abs,
      "arctan": math.atan, "tanh": math.tanh, "arctan2": math.atan2, "sign": lambda v: (v > 0) - (v < 0),
      "arcsin": math.asin, "arccos": math.acos, "sinh": math.sinh, "cosh": math.cosh}


class Unknown(Exception):
    pass


class Eval:
    def __init__(self, env, arrays):
        self.env, self.arrays = env, arrays

    def p(self, p, env=None):
        if not isinstance(p, t.P):
            return p
        env = self.env if env is None else env
        tot = 0.0
        for m, c in p.d.items():
            v = float(c)
            # conditions first: what they exclude need not have a value
            for a, e in sorted(m, key=lambda q: t.ATOMS[q[0]].kind != "iv"):
                v *= self.atom(t.ATOMS[a], env) ** e
                if not v:
                    break
            tot += v
        return tot

    def atom(self, at, env):
        k = at.kind
        if k == "sym":
            if at.id not in env:
                raise Unknown(at.name)
            return env[at.id]
        if k == "read":
            i = tuple(int(round(self.p(x, env))) for x in at.meta[0])
            if at.name == "floordiv":
                return i[0] // i[1]
            if at.name not in self.arrays:
                raise Unknown(at.name)
            a = self.arrays[at.name]
            if len(i) != a.ndim or any(j < 0 or j >= s for j, s in zip(i, a.shape)):
                raise IndexError(f"{at.name}{i} outside {a.shape}")
            return float(a[i])
        if k == "fn":
            return FN[at.name](*[self.p(x, env) for x in at.meta])
        if k == "inv":
            return 1.0 / self.p(at.meta, env)
        if k == "iv":
            return 1.0 if self.b(at.meta, env) else 0.0
        if k == "sum":
            vs, body = at.meta

            def go(j, env):
                if j == len(vs):
                    return self.p(body, env)
                v, n = vs[j]
                return sum(go(j + 1, {**env, t.vid(v): float(q)}) for q in range(int(round(self.p(n, env)))))
            return go(0, dict(env))
        raise Unknown(k)

    def b(self, b, env=None):
        env = self.env if env is None else env
        if isinstance(b, bool):
            return b
        k = b.kind
        if k == "const":
            return b.val
        if k == "not":
            return not self.b(b.args[0], env)
        if k == "and":
            return all(self.b(x, env) for x in b.args)
        if k == "or":
            return any(self.b(x, env) for x in b.args)
        if k == "ge0":
            return self.p(b.args[0], env) >= -1e-9
        if k == "eq0":
            return abs(self.p(b.args[0], env)) < 1e-9
        raise Unknown(k)


SNIPPETS = []


def snippet(spec, *fns, **opts):
    """spec: "a:nm b:m"; sizes by letter, each at least one."""
    arrays = {w.split(":")[0]: w.split(":")[1] for w in spec.split()}
    for f in fns:
        SNIPPETS.append((arrays, f, opts))


def symbolic_array(name, dims):
    sz = [t.sym("size_" + d, "int") for d in dims]
    return T(sz, lambda *c: t.read(name, [t.lift(x) for x in c]), "real")


def run_symbolic(arrays, f):
    """[(facts, bounds, indices, result shape terms, element term)] of every path."""
    out = []
    letters = sorted(set("".join(arrays.values())))

    def run():
        CTX.goal = "validate"
        CTX.local = []
        sizes = {d: CTX.size("size_" + d, 1) for d in letters}
        a = [symbolic_array(n, d) for n, d in arrays.items()]
        r = f(symnp.NumpyProxy(np), *a, **sizes)
        if isinstance(r, (tuple, list)):
            r = r[CTX.choose(len(r))] if len(r) > 1 else r[0]
            which = list(CTX.decisions)[-1:]
        if isinstance(r, T):
            shape = [t.lift(s.size()) for s in r.spaces]
            ids = [CTX.index(f"i{k}", s) for k, s in enumerate(shape)]
            v = r.at(*ids) if r.ndim else r.el()
        else:
            shape, ids, v = [], [], r
        if isinstance(v, t.B):
            v = t.iverson(v)
        out.append((list(CTX.facts), dict(CTX.bounds), [t.vid(i) if not i.is_const() else None for i in ids], shape,
                    t.lift(v)))
    CTX.obligations = []
    CTX.explore(None, run, max_paths=400)
    return out, letters


def check(arrays, f, opts, rng, sizes):
    paths, letters = run_symbolic(arrays, f)
    done = bad = 0
    msgs = []
    for combo in itertools.product(sizes, repeat=len(letters)):
        n = dict(zip(letters, combo))
        data = {}
        for name, dims in arrays.items():
            v = rng.normal(size=[n[d] for d in dims])
            data[name] = np.abs(v) + 0.1 if opts.get("positive") else v
        try:
            with np.errstate(all="ignore"):
                want = f(np, *data.values(), **n)
            if isinstance(want, (tuple, list)):
                want = want if len(want) > 1 else want[0]
        except (ValueError, IndexError):
            continue
        if isinstance(want, (tuple, list)):
            continue            # a snippet returns one array
        want = np.asarray(want, float)
        base = {t.vid(t.sym("size_" + d, "int")): float(v) for d, v in n.items()}
        for idx in np.ndindex(*want.shape):
            hit = 0
            for facts, bounds, ids, shape, v in paths:
                if len(ids) != len(idx):
                    continue
                env = dict(base)
                env.update({i: float(j) for i, j in zip(ids, idx) if i is not None})
                if any(i is None and j for i, j in zip(ids, idx)):
                    continue
                free = sorted({a for q in facts for a in q.fv if t.ATOMS[a].kind == "sym"} | {
                    a for a in v.fv if t.ATOMS[a].kind == "sym"} - set())
                free = [a for a in free if a not in env]
                if len(free) > 3:
                    continue
                for vals in itertools.product(range(0, 10), repeat=len(free)):
                    e = Eval({**env, **dict(zip(free, map(float, vals)))}, data)
                    try:
                        ok = all(e.b(q) for q in facts)
                        for a in free:
                            lo, hi = bounds.get(a, (None, None))
                            ok = ok and (lo is None or e.p(lo) <= e.env[a] + 1e-9) and (
                                hi is None or e.p(hi) >= e.env[a] - 1e-9)
                        if not ok:
                            continue
                        sh = tuple(int(round(e.p(s))) for s in shape)
                        got = e.p(v)
                    except (Unknown, IndexError, ZeroDivisionError) as x:
                        if isinstance(x, IndexError):
                            msgs.append(f"{n} {idx}: {x}")
                        continue
                    hit += 1
                    if sh != want.shape:
                        bad += 1
                        msgs.append(f"{n}: shape {sh}, numpy {want.shape}")
                    elif not abs(got - want[idx]) <= 1e-8 * max(1, abs(want[idx])):
                        bad += 1
                        msgs.append(f"{n} {idx}: {got}, numpy {want[idx]}: {v!r}"[:300])
            done += hit > 0
            if not hit:
                msgs.append(f"{n} {idx}: no path applies")
                bad += 1
        if want.ndim and not want.size:
            done += 0
    return len(paths), done, bad, msgs


def define():
    s = snippet
    s("a:n", lambda np, a, n: np.cumsum(a), lambda np, a, n: np.sum(a), lambda np, a, n: np.mean(a),
      lambda np, a, n: np.flip(a), lambda np, a, n: a[::-1], lambda np, a, n: np.append(a, 2.0),
      lambda np, a, n: np.insert(a, 0, 5.0), lambda np, a, n: np.tile(a, 3), lambda np, a, n: np.tile(a, (2, 1)),
      lambda np, a, n: np.repeat(a, 3), lambda np, a, n: np.outer(a, a), lambda np, a, n: a[:, None] * a,
      lambda np, a, n: np.expand_dims(a, 0), lambda np, a, n: np.atleast_2d(a), lambda np, a, n: np.diag(a),
      lambda np, a, n: np.kron(a, a), lambda np, a, n: np.roll(a, 1), lambda np, a, n: np.multiply.outer(a, a),
      lambda np, a, n: np.add.outer(a, a), lambda np, a, n: np.r_[0.0, a, 1.0], lambda np, a, n: np.r_[a, a],
      lambda np, a, n: np.hstack([a, a, 1.0]), lambda np, a, n: np.stack([a, 2 * a]),
      lambda np, a, n: np.stack([a, 2 * a], axis=1), lambda np, a, n: np.vstack([a, a]),
      lambda np, a, n: np.column_stack([a, 3 * a]), lambda np, a, n: np.arange(n) * a, lambda np, a, n: np.eye(n) @ a,
      lambda np, a, n: np.arange(n)[::-1] + a, lambda np, a, n: np.linspace(0, 1, n + 1)[1:] * a,
      lambda np, a, n: np.where(np.arange(n) > 0, a, -a), lambda np, a, n: np.maximum(a, 0.2),
      lambda np, a, n: np.minimum(a, 0.2), lambda np, a, n: np.clip(a, -0.5, 0.5), lambda np, a, n: np.abs(a),
      lambda np, a, n: np.full(n, 2.5) + a, lambda np, a, n: np.zeros((n, 2)) + a[:, None],
      lambda np, a, n: np.concatenate([a, np.zeros(2), a]), lambda np, a, n: a[-1] + a[0], lambda np, a, n: a @ a,
      lambda np, a, n: np.dot(a, a), lambda np, a, n: np.inner(a, a), lambda np, a, n: np.vdot(a, a),
      lambda np, a, n: np.ones_like(a) - a, lambda np, a, n: np.sin(a) ** 2 + np.cos(a), lambda np, a, n: np.tan(a),
      lambda np, a, n: np.arctan2(a, 1.0 + a * a), lambda np, a, n: np.hypot(a, 2.0), lambda np, a, n: np.sign(a),
      lambda np, a, n: np.tanh(a), lambda np, a, n: np.exp(-a), lambda np, a, n: np.arctan(a),
      lambda np, a, n: np.take(a, [0, -1]), lambda np, a, n: np.take(a, 0), lambda np, a, n: a[np.arange(n)[::-1]],
      lambda np, a, n: np.triu_indices(n)[0] * 1.0, lambda np, a, n: np.triu_indices(n)[1] * 1.0,
      lambda np, a, n: np.square(a), lambda np, a, n: np.power(a, 3), lambda np, a, n: a ** 2 / (1 + a * a),
      lambda np, a, n: np.broadcast_to(a, (3, n)), lambda np, a, n: np.subtract(a, 1) * np.negative(a),
      lambda np, a, n: np.count_nonzero(np.eye(n)), lambda np, a, n: np.cumsum(np.insert(a, 0, 0.0)),
      lambda np, a, n: np.add.accumulate(a), lambda np, a, n: np.cumsum(np.ones(n)), lambda np, a, n: a.sum() * a.mean(),
      lambda np, a, n: np.append(a[-1:], a), lambda np, a, n: np.einsum("i,i", a, a), lambda np, a, n: np.einsum("i->", a),
      lambda np, a, n: np.squeeze(a[None]), lambda np, a, n: np.arange(0, 2 * n, 2) + a,
      lambda np, a, n: np.meshgrid(a, a)[0], lambda np, a, n: np.meshgrid(a, a, indexing="ij")[0],
      lambda np, a, n: np.isin(np.arange(n), np.array([0, 2])) * a, lambda np, a, n: np.hstack([np.arange(n), a]),
      lambda np, a, n: np.ravel([a, a]), lambda np, a, n: np.array([a, 2 * a]), lambda np, a, n: np.asarray([a[0], 1.0]))
    s("a:nm", lambda np, a, n, m: np.ravel(a), lambda np, a, n, m: a.T, lambda np, a, n, m: np.ravel(a.T),
      lambda np, a, n, m: np.ravel(a, order="F"), lambda np, a, n, m: a.sum(0), lambda np, a, n, m: a.sum(axis=1),
      lambda np, a, n, m: np.mean(a, axis=0), lambda np, a, n, m: a[:, 0], lambda np, a, n, m: a[-1],
      lambda np, a, n, m: a[1:] - a[:-1], lambda np, a, n, m: np.diff(a, axis=0), lambda np, a, n, m: np.tile(a, (2, 1)),
      lambda np, a, n, m: np.tile(a, 2), lambda np, a, n, m: np.repeat(a, 2, axis=0),
      lambda np, a, n, m: np.repeat(a, 2, axis=1), lambda np, a, n, m: np.repeat(a, 2), lambda np, a, n, m: np.hstack([a, a]),
      lambda np, a, n, m: np.vstack([a, a]), lambda np, a, n, m: np.concatenate([a, a], axis=1),
      lambda np, a, n, m: np.reshape(a, (m * n,)), lambda np, a, n, m: np.reshape(a, (-1, m)),
      lambda np, a, n, m: np.reshape(a.T, (-1,)), lambda np, a, n, m: np.reshape(a, (n, m, 1))[:, :, 0],
      lambda np, a, n, m: a @ a.T, lambda np, a, n, m: a.T @ a, lambda np, a, n, m: np.einsum("ij,kj->ik", a, a),
      lambda np, a, n, m: np.einsum("ij->ji", a), lambda np, a, n, m: np.einsum("ij->j", a),
      lambda np, a, n, m: np.einsum("...j,j->...", a, a[0]), lambda np, a, n, m: np.tensordot(a, a, axes=([1], [1])),
      lambda np, a, n, m: np.tensordot(a, a[0], axes=1), lambda np, a, n, m: np.expand_dims(a, 1)[:, 0],
      lambda np, a, n, m: np.swapaxes(a, 0, 1), lambda np, a, n, m: np.moveaxis(a, 0, 1),
      lambda np, a, n, m: np.transpose(a), lambda np, a, n, m: a * np.arange(m), lambda np, a, n, m: a * np.arange(n)[:, None],
      lambda np, a, n, m: a.flatten(), lambda np, a, n, m: np.stack([a, a], axis=0)[1], lambda np, a, n, m: a[::-1],
      lambda np, a, n, m: a[:, ::-1], lambda np, a, n, m: np.flip(a, axis=1), lambda np, a, n, m: a[:, [0, -1]],
      lambda np, a, n, m: a[np.arange(n), 0], lambda np, a, n, m: a[np.arange(n)[:, None], np.arange(m)],
      lambda np, a, n, m: np.take(a, [0], axis=1), lambda np, a, n, m: np.where(a > 0, a, 0.0),
      lambda np, a, n, m: np.insert(a, 0, 1.0, axis=0), lambda np, a, n, m: a[1:].sum(),
      lambda np, a, n, m: np.kron(np.eye(n), a[:1]), lambda np, a, n, m: np.kron(a, np.ones((2, 2))),
      lambda np, a, n, m: np.trace(a @ a.T), lambda np, a, n, m: np.diag(a @ a.T), lambda np, a, n, m: a.ravel()[:m],
      lambda np, a, n, m: a.ravel()[m - 1::m], lambda np, a, n, m: a.ravel()[::m], lambda np, a, n, m: a.dot(a[0]),
      lambda np, a, n, m: np.array([r.sum() for r in a.T[:1]]), lambda np, a, n, m: np.nonzero(np.ones((n, m)))[0] * 1.0,
      lambda np, a, n, m: np.nonzero(np.ones((n, m)))[1] * 1.0, lambda np, a, n, m: np.indices((n, m))[1] * a,
      lambda np, a, n, m: np.broadcast_to(a, (2, n, m))[1], lambda np, a, n, m: np.max(np.abs(a[0] * 0)),
      lambda np, a, n, m: np.arange(n * m).reshape(n, m) + a, lambda np, a, n, m: np.arange(n * m).reshape(n, m).T * a.T,
      lambda np, a, n, m: np.split(a, 1, axis=0)[0], lambda np, a, n, m: np.concatenate(np.split(a, [1], axis=0)),
      lambda np, a, n, m: np.cross(a[0, :1] * np.ones(3), np.arange(3.0)) if False else a)
    s("a:nm b:mk", lambda np, a, b, **z: a @ b, lambda np, a, b, **z: np.matmul(a, b), lambda np, a, b, **z: np.dot(a, b),
      lambda np, a, b, **z: np.einsum("ij,jk->ik", a, b), lambda np, a, b, **z: np.tensordot(a, b, 1),
      lambda np, a, b, **z: np.hstack([a, b.T]) if False else np.ravel(a @ b), lambda np, a, b, **z: (a @ b).T,
      lambda np, a, b, **z: np.einsum("ij,jk->ijk", a, b), lambda np, a, b, **z: np.hstack([a.ravel(), b.ravel()]),
      lambda np, a, b, **z: a[:, :, None] * b[None], lambda np, a, b, **z: (a[:, :, None] * b).sum(1),
      lambda np, a, b, **z: np.concatenate([a.ravel(), b.ravel(), [1.0]]),
      lambda np, a, b, **z: np.concatenate((a.T, b), axis=1))
    s("a:n b:m", lambda np, a, b, **z: np.outer(a, b), lambda np, a, b, **z: np.kron(a, b),
      lambda np, a, b, **z: np.concatenate([a, b]), lambda np, a, b, **z: np.concatenate([a, b, a]),
      lambda np, a, b, **z: np.r_[a, b], lambda np, a, b, **z: np.meshgrid(a, b)[0],
      lambda np, a, b, **z: np.meshgrid(a, b)[1], lambda np, a, b, **z: np.ravel(np.outer(b, a)),
      lambda np, a, b, **z: np.tile(a, z["m"]), lambda np, a, b, **z: np.repeat(a, z["m"]),
      lambda np, a, b, **z: np.tile(a, (z["m"], 1)).T * b, lambda np, a, b, **z: np.append(a, b),
      lambda np, a, b, **z: np.hstack([b, a])[z["m"]:], lambda np, a, b, **z: np.concatenate([a, b])[:z["n"]],
      lambda np, a, b, **z: np.cumsum(np.concatenate([a, b])), lambda np, a, b, **z: np.diff(np.append(a, b)),
      lambda np, a, b, **z: np.add.outer(a, b).T, lambda np, a, b, **z: a[:, None] - b,
      lambda np, a, b, **z: (a[:, None] + b).reshape(-1), lambda np, a, b, **z: np.ravel(np.arange(z["m"])[:, None] * z["n"]
                                                                                         + np.arange(z["n"])) * 1.0,
      lambda np, a, b, **z: np.tensordot(a, b, 0), lambda np, a, b, **z: np.full((z["n"], z["m"]), 2.0) * b)
    s("a:nmk", lambda np, a, **z: np.ravel(a), lambda np, a, **z: a.sum(axis=(0, 2)), lambda np, a, **z: a.transpose(1, 2, 0),
      lambda np, a, **z: a.T, lambda np, a, **z: np.reshape(a, (-1, z["k"])), lambda np, a, **z: a[:, -1, :],
      lambda np, a, **z: np.reshape(a, (z["n"], -1)), lambda np, a, **z: np.einsum("ijk->kj", a),
      lambda np, a, **z: np.einsum("ijk,ilk->jl", a, a), lambda np, a, **z: a @ a[0].T, lambda np, a, **z: a[..., 0],
      lambda np, a, **z: np.moveaxis(a, 2, 0), lambda np, a, **z: np.concatenate(a, axis=0),
      lambda np, a, **z: np.hstack(a), lambda np, a, **z: np.vstack(a), lambda np, a, **z: a.reshape(-1)[::z["k"]])
    def write(key, val):
        def f(np, a, **z):
            b = np.copy(a)
            b[key(np, z) if callable(key) else key] = val(np, a, z) if callable(val) else val
            return b
        return f

    def add(key, val):
        def f(np, a, **z):
            b = np.copy(a)
            b[key(np, z) if callable(key) else key] += val(np, a, z) if callable(val) else val
            return b
        return f
    s("a:n", write(0, 1.0), write(-1, 2.0), write(slice(1, None), 3.0), write(slice(None, -1), lambda np, a, z: a[1:]),
      write(slice(None), lambda np, a, z: a[::-1].copy()), add(0, 1.0), add(slice(1, None), lambda np, a, z: a[1:] * 2),
      write(lambda np, z: np.arange(z["n"]), 4.0), write(lambda np, z: np.arange(z["n"]), lambda np, a, z: 2 * a),
      write(lambda np, z: np.arange(z["n"]) > 0, 5.0), write(lambda np, z: [0], 6.0))
    s("a:nm", write(0, 1.0), write((slice(None), 0), 2.0), write((0, slice(None)), lambda np, a, z: a[-1]),
      write((slice(None), -1), lambda np, a, z: a[:, 0] * 2), add((slice(None), 0), lambda np, a, z: np.arange(z["n"]) * 1.0),
      write((slice(1, None), slice(None)), lambda np, a, z: a[:-1]), write(lambda np, z: (np.arange(z["n"]), 0), 7.0),
      add(slice(None), lambda np, a, z: a), write((slice(None), slice(1, None)), 0.0),
      write(lambda np, z: (slice(None), np.arange(z["m"])), lambda np, a, z: a * 2))

    def inplace(np, a, **z):
        b = a * 1.0
        b += 1
        b *= a
        b -= 2.0
        b /= 3.0
        return b

    def alias(np, a, **z):
        b = np.copy(a)
        c = b[1:]
        c[:] = 0.0
        return b

    def ravel_alias(np, a, **z):
        b = np.copy(a)
        c = b.reshape(-1)
        c[0] = 9.0
        return b

    def flat_copy(np, a, **z):
        b = np.copy(a)
        c = b.flatten()
        c[0] = 9.0
        return b

    def transposed(np, a, **z):
        b = np.copy(a)
        b.T[0] = 8.0
        return b
    s("a:n", inplace, alias)
    s("a:nm", inplace, alias, ravel_alias, flat_copy, transposed, lambda np, a, n, m: np.split(a.ravel(), n)[0],
      lambda np, a, n, m: np.split(a, m, axis=1)[-1], lambda np, a, n, m: np.array_split(a, n)[0],
      lambda np, a, n, m: np.concatenate(np.split(a, n)), lambda np, a, n, m: np.hstack(np.split(a, [1], axis=1)),
      lambda np, a, n, m: np.dstack([a, a])[:, :, 1] if False else a, lambda np, a, n, m: a.repeat(2, axis=0),
      lambda np, a, n, m: np.cumsum(a[0]), lambda np, a, n, m: np.full((2, n), a[0, 0]), lambda np, a, n, m: a.reshape(m, n),
      lambda np, a, n, m: a.reshape((m, n)).T, lambda np, a, n, m: np.ravel(a[:, :1] * a[:1]),
      lambda np, a, n, m: np.stack([r * 2 for r in [a[0], a[-1]]]), lambda np, a, n, m: np.prod(a.shape) * a,
      lambda np, a, n, m: np.size(a) * a, lambda np, a, n, m: np.shape(a)[1] * a, lambda np, a, n, m: len(np.shape(a)) * a,
      lambda np, a, n, m: a - a.mean(axis=0), lambda np, a, n, m: a[None, :, :].sum(axis=0),
      lambda np, a, n, m: (a > 0) * a, lambda np, a, n, m: ~(a > 0) * a, lambda np, a, n, m: np.where(a[:, 0] > 0, 1.0, a[:, 0]),
      lambda np, a, n, m: np.logical_and(a > 0, a < 1) * a, lambda np, a, n, m: np.abs(a) ** 3 / np.maximum(a, 1.0))
    s("a:n b:n", lambda np, a, b, n: np.gradient(np.insert(a, 0, [0.0, 1.0]), np.cumsum(np.insert(b, 0, [1.0, 2.0]))),
      lambda np, a, b, n: np.where(a > b, a, b), lambda np, a, b, n: np.vdot(a, b), lambda np, a, b, n: np.ravel([a, b], order="F"),
      lambda np, a, b, n: np.column_stack([a, b]).ravel(), lambda np, a, b, n: np.stack([a, b], -1),
      lambda np, a, b, n: np.cumsum(np.diff(np.append(a, 1.0)) * b), lambda np, a, b, n: a % 1.0 if False else a * b,
      lambda np, a, b, n: np.hypot(a, b), lambda np, a, b, n: np.arctan2(a, b), lambda np, a, b, n: np.dot(a, b) * a,
      lambda np, a, b, n: np.concatenate([a[:1], b[1:]]), lambda np, a, b, n: a / b ** 2, positive=True)
    s("a:n", lambda np, a, n: np.sqrt(a), lambda np, a, n: np.log(a), lambda np, a, n: 1.0 / a, lambda np, a, n: a ** -2,
      lambda np, a, n: np.true_divide(1.0, a), lambda np, a, n: np.divide(2.0, a), lambda np, a, n: np.gradient(a) if False
      else a, positive=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--out")
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    define()
    rng = np.random.default_rng(a.seed)
    t0 = time.time()
    tot = wrong = out = 0
    import inspect
    for k, (arrays, f, opts) in enumerate(SNIPPETS):
        name = f"{k} {' '.join(f'{x}:{d}' for x, d in arrays.items())} (line {f.__code__.co_firstlineno})"
        try:
            n, done, bad, msgs = check(arrays, f, opts, rng, (1, 2, 3) if len(set(''.join(arrays.values()))) < 3 else (1, 2))
        except (t.Unsupported, t.ProofAbort) as e:
            out += 1
            print(name, "outside the contracts:", e)
            continue
        except Exception as e:
            wrong += 1
            import traceback
            print(name, "ERROR", type(e).__name__, e)
            if a.v:
                traceback.print_exc()
            continue
        tot += done
        wrong += bad > 0
        if bad or a.v:
            print(name, f"paths {n} elements {done} wrong {bad}", *msgs[:4], sep="\n      ")
    print(f"snippets {len(SNIPPETS)} elements compared {tot} snippets wrong {wrong} outside {out} {time.time() - t0:.1f}s")
    if a.out:
        import json
        with open(a.out, "w") as g:
            json.dump(dict(programs=len(SNIPPETS), elements_compared=tot, wrong=wrong, outside_the_contracts=out,
                           bound="sizes up to 3 (2 for three symbolic sizes), seeded random contents"), g)
    sys.exit(wrong > 0)


if __name__ == "__main__":
    main()

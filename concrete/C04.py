"""Runtime contract: stack of constraints, sum of objectives, over histories of adding and deleting."""
import numpy as np

from concrete.access import set_dec_scales
from concrete.base import case, require, close, factor, memo, raises, twice, vec
from lumos.optimal_control.nlp import BaseConstraints, BaseObjective, CompositeProblem


def sym(A):
    return A + np.swapaxes(A, -1, -2)


def structure(rng, A, rows, cols, symmetric=False):
    """A structure covering the non-zeros of A[.., rows, cols] (dense, sparse, shuffled, 2-d)."""
    if rng.integers(3) == 0:
        return None, np.nonzero(np.ones((rows, cols)))
    if 0 in (rows, cols):
        e = np.zeros(0, int)
        return (e, e), (e, e)
    mask = (np.abs(A).reshape(-1, rows, cols).sum(0) != 0) | (rng.random((rows, cols)) < 0.2)
    if symmetric:
        mask |= mask.T
    r, c = np.nonzero(mask)
    p = rng.permutation(len(r))
    r, c = r[p], c[p]
    if len(r) and len(r) % 2 == 0 and rng.integers(2):
        r, c = r.reshape(-1, 2), c.reshape(-1, 2)
    return (r, c), (r, c)


class Con:
    def __init__(self, rng, n):
        self.m = int(rng.integers(1, 4)) if rng.integers(8) else 0
        self.A = sym(rng.normal(size=(self.m, n, n)) * (rng.random((self.m, n, n)) < 0.4))
        self.b = rng.normal(size=(self.m, n)) * (rng.random((self.m, n)) < 0.7)
        self.c = rng.normal(size=self.m)
        self.d = np.einsum("rii->ri", self.A) * rng.uniform(-1, 1, (self.m, n))      # cubic terms where A has a diagonal
        js, (jr, jc) = structure(rng, np.concatenate([np.abs(self.A).sum(2)[:, :], np.abs(self.b)], 0)
                                 .reshape(2, self.m, n), self.m, n)
        hs, (hr, hc) = structure(rng, self.A, n, n, True)
        two = self.m == 2 and rng.integers(2)
        shp = (lambda v: v.reshape(2, -1)) if two else (lambda v: v)
        self.obj = BaseConstraints(n, self.m, memo(rng, lambda x: shp(self.val(x)) if not two else self.val(x)),
                                   memo(rng, lambda x: self.jac(x)[jr, jc]),
                                   memo(rng, lambda x, l: self.hes(x, l)[hr, hc]), js, hs)
        if rng.integers(2):
            self.k = np.exp(rng.uniform(-1, 1, self.m))
            self.obj.set_con_scales(self.k)
        else:
            self.k = np.ones(self.m)

    def val(self, x):
        return 0.5 * np.einsum("rij,i,j->r", self.A, x, x) + self.d @ x ** 3 / 6 + self.b @ x + self.c

    def jac(self, x):
        return self.A @ x + self.b + self.d * x ** 2 / 2

    def hes(self, x, l):
        return np.einsum("r,rij->ij", l, self.A) + np.diag(l @ self.d * x)


class Obj:
    def __init__(self, rng, n):
        self.A = sym(rng.normal(size=(n, n)) * (rng.random((n, n)) < 0.4))
        self.b = rng.normal(size=n)
        self.d = np.diag(self.A) * rng.uniform(-1, 1, n)
        hs, (hr, hc) = structure(rng, self.A, n, n, True)
        self.obj = BaseObjective(n, self.val, memo(rng, self.grad), memo(rng, lambda x: self.hes(x)[hr, hc]), hs)

    def val(self, x):
        return float(0.5 * x @ self.A @ x + self.d @ x ** 3 / 6 + self.b @ x)

    def grad(self, x):
        return self.A @ x + self.b + self.d * x ** 2 / 2

    def hes(self, x):
        return self.A + np.diag(self.d * x)


def check(rng, p, n, cons, objs, s):
    x, of = vec(rng, n), factor(rng)
    X = x * s
    m = sum(c.m for c in cons.values())
    require(p.num_con == m, "number of constraints")
    require(isinstance(p.num_con, int), "num_con must be an int for the solver")
    if objs:
        close(twice(rng, p.objective, x), sum(o.val(X) for o in objs.values()), "objective")
        close(twice(rng, p.gradient, x), sum(o.grad(X) * s for o in objs.values()), "gradient")
    if not cons:
        return
    close(twice(rng, p.constraints, x), np.concatenate([c.val(X) / c.k for c in cons.values()]), "constraints")
    D = np.zeros((m, n))
    rows, cols = p.jacobianstructure()
    v = twice(rng, p.jacobian, x)
    require(v.ndim == rows.ndim == cols.ndim == 1 and v.size == rows.size == cols.size, "Jacobian layout")
    np.add.at(D, (rows, cols), v)
    close(D, np.concatenate([c.jac(X) * s / c.k[:, None] for c in cons.values()]), "Jacobian")
    lam = vec(rng, m)
    parts, o = {}, 0
    for k, c in cons.items():
        parts[k] = lam[o:o + c.m]
        o += c.m
    L = lam.copy()
    got = p.split_constraints(lam)
    close(lam, L, 'the split vector')
    require(list(got) == list(parts), "names of the split")
    for k in parts:
        close(got[k], parts[k], f"slice of {k}")
    if objs:
        first = rng.integers(2)
        if first:
            rows, cols = p.hessianstructure()
        v = twice(rng, p.hessian, x, lam, of)
        if not first:
            rows, cols = p.hessianstructure()
        require(v.size == rows.size == cols.size, "Hessian layout")
        require((rows <= cols).all(), "Hessian structure is not upper triangular")
        D = np.zeros((n, n))
        np.add.at(D, (rows, cols), v)
        W = sum(c.hes(X, parts[k] / c.k) for k, c in cons.items()) + of * sum(o.hes(X) for o in objs.values())
        close(D, np.triu(W * s * s[:, None]), "Hessian of the Lagrangian (upper triangle)")


NAMES = ("z", "b", "a", "B10", "c2", "Z", "m.n", "q_1", "01", "aa")


def name(rng, cnt):
    return f"{NAMES[int(rng.integers(len(NAMES)))]}{cnt}"


@case(quick=40)
def not_finite(rng):
    """One objective or constraint that is not finite is not left out."""
    n = int(rng.integers(1, 4))
    p = CompositeProblem(n)
    k = int(rng.integers(1, 4))
    bad, at = [np.inf, -np.inf, np.nan][int(rng.integers(3))], int(rng.integers(k))
    for i in range(k):
        v = bad if i == at else float(rng.normal())
        p.add_objective(f"o{i}", BaseObjective(n, lambda x, v=v: v, lambda x, v=v: np.full(n, v),
                                               lambda x, v=v: np.full(n, v), (np.arange(n), np.arange(n))))
        p.add_constraints(f"c{i}", BaseConstraints(n, 1, lambda x, v=v: np.array([v]), lambda x, v=v: np.full(n, v),
                                                   lambda x, l, v=v: np.zeros(0), (np.zeros(n, int), np.arange(n)),
                                                   (np.zeros(0, int), np.zeros(0, int))))
    x = vec(rng, n)
    with np.errstate(all="ignore"):
        require(np.array_equal(p.objective(x), bad, equal_nan=True), "objective that is not finite")
        require(np.array_equal(p.gradient(x), np.full(n, bad), equal_nan=True), "gradient that is not finite")
        require(np.array_equal(np.ravel(p.constraints(x))[at], bad, equal_nan=True), "constraint that is not finite")
        require(np.array_equal(p.jacobian(x)[at * n:at * n + n], np.full(n, bad), equal_nan=True), "Jacobian that is not finite")
    return dict(k=k, bad=bad)


@case(quick=300)
def history(rng):
    n = int(rng.integers(1, 6))
    p = CompositeProblem(n)
    s = np.ones(n)
    if rng.integers(2):
        s = np.exp(rng.uniform(-1, 1, n))
        set_dec_scales(p, s)
    cons, objs, log = {}, {}, []
    cnt = 0
    for step in range(int(rng.integers(1, 9))):
        a = rng.integers(6) if step > 1 else step
        if a in (0, 2):
            cnt += 1
            c = Con(rng, n)
            k = name(rng, cnt)
            p.add_constraints(k, c.obj)
            cons[k] = c
        elif a in (1, 3):
            cnt += 1
            c = Obj(rng, n)
            if objs and rng.integers(4) == 0:       # the same objective once more
                c = list(objs.values())[int(rng.integers(len(objs)))]
            k = name(rng, cnt)
            p.add_objective(k, c.obj)
            objs[k] = c
        elif a == 4 and cons:
            k = list(cons)[int(rng.integers(len(cons)))]
            p.delete_constraints(k)
            del cons[k]
        elif a == 5 and objs:
            k = list(objs)[int(rng.integers(len(objs)))]
            p.delete_objective(k)
            del objs[k]
        log.append(int(a))
        if rng.integers(2):
            check(rng, p, n, cons, objs, s)
    if cons:
        raises(ValueError, lambda: p.add_constraints(list(cons)[0], Con(rng, n).obj), "duplicate constraints accepted")
    if objs:
        raises(NameError, lambda: p.add_objective(list(objs)[0], Obj(rng, n).obj), "duplicate objective accepted")
    raises(ValueError, lambda: p.add_constraints("x", Con(rng, n + 1).obj), "wrong number of inputs accepted")
    check(rng, p, n, cons, objs, s)
    return dict(n=n, history=log)

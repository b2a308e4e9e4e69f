"""Runtime contract: scaled components equal the unscaled ones after the change of variables."""
import numpy as np

from concrete.base import case, require, close, equal, memo, twice, vec
from lumos.optimal_control.nlp import BaseConstraints, BaseObjective, LinearConstraints


def quad(rng, n, m):
    A = rng.normal(size=(m, n, n))
    A = A + A.transpose(0, 2, 1)
    return A, rng.normal(size=(m, n)), rng.normal(size=m)


def pattern(rng, rows, cols):
    """A random structure (dense or sparse, any order) given as the caller's choice."""
    if rng.integers(3) == 0:
        return None, np.nonzero(np.ones((rows, cols)))
    r, c = np.nonzero(np.ones((rows, cols)))
    p = rng.permutation(len(r))
    st = (r[p], c[p])
    if rng.integers(2) and len(p) % 2 == 0:
        st = (st[0].reshape(2, -1), st[1].reshape(2, -1))   # any array shape consistent with the values
    return st, st


def size(rng, usual):
    return int(rng.integers(1, usual)) if rng.integers(8) else int(rng.integers(9, 14))


def scale(rng, n, old):
    k = rng.integers(8)
    if k == 0:
        return np.ones(n)
    if k == 5:                    # next to the scales before
        return old * (1 + 5e-6 * rng.choice([-1, 0, 1], n))
    if k == 6:                    # scales that change the sign
        return np.exp(rng.uniform(-2, 2, n)) * rng.choice([-1.0, 1.0], n)
    if k == 7:
        return rng.integers(1, 5, n)
    s = np.exp(rng.uniform(-3, 3, n))
    return np.where(rng.random(n) < 0.5, s, 1.0) if k == 1 else s


def histories(rng, c, n, m):
    s, k = np.ones(n), np.ones(m)
    h = []
    for _ in range(int(rng.integers(0, 5))):
        if rng.integers(2):
            s = scale(rng, n, s)
            c.set_input_scales(s.copy())
            h.append("input")
        else:
            k = scale(rng, m, k)
            c.set_con_scales(k.copy())
            h.append("con")
        if rng.integers(2):         # evaluations in between must not matter
            x, l = vec(rng, n), vec(rng, m)
            c.constraints(x), c.jacobian(x), c.hessian(x, l)
    return s, k, h


@case(quick=300)
def constraints(rng):
    n, m = size(rng, 7), size(rng, 5)
    A, b, c0 = quad(rng, n, m)
    d = rng.normal(size=(m, n))
    js, (jr, jc) = pattern(rng, m, n)
    hs, (hr, hc) = pattern(rng, n, n)
    calls = []
    f = lambda x, *a: (calls.append(a), 0.5 * np.einsum("rij,i,j->r", A, x, x) + d @ x ** 3 / 6 + b @ x + c0)[1]
    JD = lambda x: A @ x + b + d * x ** 2 / 2
    HD = lambda x, l: np.einsum("r,rij->ij", l, A) + np.diag(l @ d * x)
    J = lambda x, *a: JD(x)[jr, jc]
    H = lambda x, l, *a: HD(x, l)[hr, hc]
    con = BaseConstraints(n, m, memo(rng, f), memo(rng, J), memo(rng, H), js, hs)
    s, k, h = histories(rng, con, n, m)
    xh, lam = vec(rng, n), vec(rng, m)
    X = xh.copy()
    close(twice(rng, con.constraints, xh), f(xh * s) / k, "scaled constraints")
    equal(xh, X, "the input was modified")
    r, c = con.jacobianstructure()
    v = twice(rng, con.jacobian, xh)
    require(np.size(v) == np.size(r) == np.size(c), "Jacobian values and structure differ in size")
    D = np.zeros((m, n))
    np.add.at(D, (np.ravel(r), np.ravel(c)), np.ravel(v))
    close(D, JD(xh * s) * s / k[:, None], "scaled Jacobian")
    close(con.get_csc_jacobian(xh).toarray(), D, "csc Jacobian")
    r, c = con.hessianstructure()
    v = twice(rng, con.hessian, xh, lam)
    require(np.size(v) == np.size(r) == np.size(c), "Hessian values and structure differ in size")
    D = np.zeros((n, n))
    np.add.at(D, (np.ravel(r), np.ravel(c)), np.ravel(v))
    close(D, HD(xh * s, lam / k) * s * s[:, None], "scaled Hessian")
    close(con.get_csc_hessian(xh, lam).toarray(), D, "csc Hessian")
    require(con.jac_shape == (m, n) and con.hess_shape == (n, n), "shapes")
    return dict(n=n, m=m, dense_jac=js is None, dense_hess=hs is None, history=h)


@case(quick=200)
def objective(rng):
    n = size(rng, 7)
    A, b, c0 = quad(rng, n, 1)
    d = rng.normal(size=n)
    hs, (hr, hc) = pattern(rng, n, n)
    f = lambda x: float(0.5 * x @ A[0] @ x + d @ x ** 3 / 6 + b[0] @ x + c0[0])
    g = lambda x: A[0] @ x + b[0] + d * x ** 2 / 2
    H = lambda x: A[0] + np.diag(d * x)
    o = BaseObjective(n, f, memo(rng, g), memo(rng, lambda x: H(x)[hr, hc]), hs)
    s = np.ones(n)
    for _ in range(int(rng.integers(0, 4))):
        s = scale(rng, n, s)
        o.set_input_scales(s.copy())
        if rng.integers(2):
            q = rng.normal(size=n)
            o.objective(q), o.gradient(q), o.hessian(q)
    x = vec(rng, n)
    close(twice(rng, o.objective, x), f(x * s), "objective")
    close(twice(rng, o.gradient, x), g(x * s) * s, "gradient")
    r, c = o.hessianstructure()
    D = np.zeros((n, n))
    np.add.at(D, (np.ravel(r), np.ravel(c)), np.ravel(twice(rng, o.hessian, x)))
    close(D, H(x * s) * s * s[:, None], "Hessian")
    return dict(n=n, dense=hs is None)


@case(quick=200)
def linear(rng):
    n, m = size(rng, 7), size(rng, 5)
    B, c0 = rng.normal(size=(m, n)), rng.normal(size=m)
    r, c = np.nonzero(np.ones((m, n)))
    cached = bool(rng.integers(2))
    con = LinearConstraints(n, m, memo(rng, lambda x: B @ x + c0) if cached else lambda x: B @ x + c0,
                            memo(rng, lambda x: B[r, c]) if cached else lambda x: B[r, c], (r, c), cache_jacobian=cached)
    s, k, h = histories(rng, con, n, m)
    x = vec(rng, n)
    if not cached and rng.integers(2):      # the coefficients change (a mesh, say): so does the Jacobian
        con.jacobian(x)
        B, c0 = rng.normal(size=(m, n)), rng.normal(size=m)
    close(twice(rng, con.constraints, x), (B @ (x * s) + c0) / k, "constraints")
    twice(rng, con.jacobian, x)
    close(con.get_csc_jacobian(x).toarray(), B * s / k[:, None], "Jacobian")
    require(np.size(con.hessian(x, np.ones(m))) == 0, "Hessian of linear constraints is not empty")
    require(all(np.size(q) == 0 for q in con.hessianstructure()), "Hessian structure is not empty")
    return dict(n=n, m=m, history=h)

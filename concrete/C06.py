"""Runtime contract: transcription schemes and Lagrange matrices are exact on polynomials."""
import numpy as np
from numpy.polynomial.polynomial import Polynomial

from concrete.base import case, require, close, raises
from lumos.optimal_control import collocation as col
from lumos.optimal_control.transcription import get_transcription_options, make_transcription

FAMILY = {"LG": (-1, 0), "LGR": (-2, 1), "LGL": (-3, 2)}     # quadrature degree 2n + d, end points


@case(quick=200)
def schemes(rng):
    name = ["ForwardEuler", "Trapezoidal", "LGR", "LGRIntegral"][int(rng.integers(4))]
    kw, M = None, 2
    if name.startswith("LGR"):
        M = int(rng.integers(2, 9))
        kw = {"num_stages": M}
        if rng.integers(8) == 0:
            kw, M = [None, {}][int(rng.integers(2))], 3
    t = make_transcription(name, kw)
    require(name in get_transcription_options(), "the scheme is not among the options")
    require(type(t).__name__ == name, "another scheme was made")
    require(t.num_stages_per_interval == M, f"{t.num_stages_per_interval} stages, expected {M}")
    require(t.num_constraints_per_interval == M - 1, "number of constraints")
    A, B = t.get_continuity_matrices()
    require(np.shape(A) == np.shape(B) == (M - 1, M), "shape of the matrices")
    A2, B2 = t.get_continuity_matrices()
    close(A2, A, "second call")
    close(B2, B, "second call")
    pts = np.array([0.0, 1.0])
    if name.startswith("LGR"):
        pts = np.asarray(t.interp_points)
        require(pts.shape == (M,), "number of points")
        close(pts[[0, -1]], [0.0, 1.0], "end points", rtol=1e-10, atol=1e-10)
        require((np.diff(pts) > 1e-6).all(), f"points {pts} do not increase")
        close(t.collocation_points, pts[1:], "collocation points")
        # the collocation points are the Radau points: quadrature of degree 2(M-1)-2
        c = pts[1:]
        w = np.linalg.solve(np.vander(c, increasing=True).T, 1.0 / np.arange(1, M))
        for d in range(2 * (M - 1) - 1):
            close(w @ c ** d, 1 / (d + 1), f"Radau quadrature of degree {d}", rtol=1e-10, atol=1e-10)
    deg = {"ForwardEuler": 1, "Trapezoidal": 2, "LGR": M - 1, "LGRIntegral": M}[name]
    h = float(np.exp(rng.uniform(-3, 3)))
    t0 = float(rng.normal())
    for d in range(deg + 1):
        p = Polynomial(np.append(rng.normal(size=d), 1.0), domain=[t0, t0 + h], window=[0, 1])
        x, xd = p(t0 + h * pts), p.deriv()(t0 + h * pts)
        close(A @ x, h * (B @ xd), f"{name} {M}: polynomial of degree {d}", rtol=1e-7, atol=1e-7)
        close(t.continuity_con(x[:, None], xd[:, None], h), np.zeros((M - 1, 1)), "continuity_con", rtol=1e-7,
              atol=1e-7)
    require(np.linalg.matrix_rank(np.asarray(A)[:, 1:]) == M - 1, "the end state is not determined by the start")
    x, xd = rng.normal(size=(M, 2)), rng.normal(size=(M, 2))
    close(t.continuity_con(x, xd, h), A @ x - h * (B @ xd), "continuity_con of two states")
    return dict(name=name, M=M)


@case(quick=200)
def lagrange(rng):
    n = int(rng.integers(1, 7))
    sup = np.cumsum(rng.uniform(0.3, 1.0, n)) * 2 / n - 1 + rng.normal()
    if rng.integers(2):
        sup = rng.permutation(sup)
    if rng.integers(6) == 0:
        sup = np.round(sup * 4).astype(float)
        if len(set(sup)) < n:
            sup = np.arange(n) * 1.0
    ev = rng.uniform(sup.min() - 0.5, sup.max() + 0.5, size=int(rng.integers(1, 6)))
    if rng.integers(3) == 0:
        ev = sup.copy()
    s0, e0 = sup.copy(), ev.copy()
    D = col.build_lagrange_differential_matrix(sup, ev)
    I = col.build_lagrange_integration_matrix(sup, ev)
    require(np.shape(D) == np.shape(I) == (len(ev), n), "shape")
    basis = col.make_lagrange_basis(sup)
    require(len(basis) == n, "number of basis polynomials")
    for i, b in enumerate(basis):
        close(b(sup), np.eye(n)[i], f"basis polynomial {i} on the support", rtol=1e-7, atol=1e-7)
        close(col.make_lagrange_polynomial(sup, i)(ev), b(ev), "make_lagrange_polynomial")
        require(b.degree() <= n - 1, "degree")
    c = sup.mean()
    for d in range(n):
        co = np.append(rng.normal(size=d), 1.0)
        p = Polynomial(co, domain=[c - 1, c + 1], window=[-1, 1])
        close(D @ p(sup), p.deriv()(ev), f"derivative of a polynomial of degree {d}", rtol=1e-6, atol=1e-6)
        q = p.integ()
        close(I @ p(sup), q(ev) - q(sup[0]), f"integral of a polynomial of degree {d}", rtol=1e-6, atol=1e-6)
    require((sup == s0).all() and (ev == e0).all(), "the arguments were changed")
    return dict(n=n, m=len(ev))


@case(quick=60)
def points(rng):
    fam = list(FAMILY)[int(rng.integers(3))]
    n = int(rng.integers(1 if fam != "LGL" else 2, 13))
    scheme = col.CollocationEnum[fam]
    t = np.asarray(col.get_collocation_points(n, scheme))
    require(t.shape == (n,), f"{fam}: {t.shape} points, expected {n}")
    require((np.diff(t) > 1e-6).all() and (t > -1 - 1e-9).all() and (t < 1 + 1e-9).all(), f"{fam} points {t}")
    d, ends = FAMILY[fam]
    if ends >= 1:
        close(t[-1], 1.0, "last point")
    if ends == 2:
        close(t[0], -1.0, "first point")
    L = np.polynomial.legendre
    w = np.linalg.solve(L.legvander(t, n - 1).T, np.r_[2.0, np.zeros(n - 1)])
    k = 2 * n + d
    m = L.legvander(t, max(k, 0)).T @ w
    close(m, np.r_[2.0, np.zeros(max(k, 0))], f"{fam} quadrature with {n} points to degree {k}", rtol=1e-10, atol=1e-10)
    if fam == "LGR":
        close(np.asarray(col.get_collocation_points(n)), t, "default family")
    return dict(fam=fam, n=n)


@case(quick=10)
def rejection(rng):
    raises(RuntimeError, lambda: make_transcription("NotAScheme"), "an unknown scheme was accepted")
    raises(RuntimeError, lambda: make_transcription("lgr"), "an unknown scheme was accepted")
    raises(TypeError, lambda: col.get_collocation_points(3, "LGR"), "a family given by a string was accepted")
    raises(AssertionError, lambda: col.get_collocation_points(0), "zero points were accepted")
    raises(TypeError, lambda: make_transcription("ForwardEuler", {"num_stages": 3}), "an argument was dropped")
    return dict(k=int(rng.integers(1000)))

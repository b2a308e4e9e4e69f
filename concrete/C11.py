"""Runtime contract: the casadi array functions give numpy's values.

A column vector (n, 1) stands for a 1-D array and a (1, 1) array for a scalar, as everywhere in the
namespace.  Every call below is one the namespace supports, so it must succeed and agree."""
import casadi as cas
import numpy as np

import lumos.numpy as lnp
import lumos.numpy.casadi_numpy as cnp
from concrete.base import Violation, case, require, raises

UNARY = ("abs fabs sin cos tan exp sqrt log log10 log1p expm1 arctan sinh cosh tanh arcsinh sign floor ceil "
         "degrees radians").split()
LOG = ("sqrt", "log", "log10", "log1p")
TRIGD = dict(sind=lambda x: np.sin(np.deg2rad(x)), cosd=lambda x: np.cos(np.deg2rad(x)),
             tand=lambda x: np.tan(np.deg2rad(x)), arcsind=lambda x: np.rad2deg(np.arcsin(x)),
             arccosd=lambda x: np.rad2deg(np.arccos(x)))
BINARY = ("minimum maximum fmin fmax arctan2 hypot copysign add subtract multiply divide power greater less "
          "equal not_equal greater_equal less_equal").split()


def vec(a):
    a = np.asarray(a, float)
    return a.reshape((1, 1) if a.ndim == 0 else (a.shape[0], 1) if a.ndim == 1 else a.shape)


def array(rng, ndim, lo=1, hi=5):
    a = rng.normal(size=tuple(int(k) for k in rng.integers(lo, hi, size=ndim)))
    if ndim == 2 and a.shape[0] == 1 or rng.random() < 0.1:
        a = np.round(a)
    return a


def matrix(rng, lo=2):
    return rng.normal(size=tuple(int(k) for k in rng.integers(lo, 6, size=2)))


def evaluate(rng, f, arrs, mixed=False, kinds=("SX", "MX", "DM")):
    """f on casadi arrays of one kind (some left numpy if mixed), evaluated at arrs."""
    kind = kinds[int(rng.integers(len(kinds)))]
    while True:
        keep = [mixed and rng.random() < 0.4 for _ in arrs]
        if not all(keep):
            break
    if kind == "DM":
        out = f(*[a if k else cas.DM(vec(a)) for a, k in zip(arrs, keep)])
        outs = list(out) if isinstance(out, (list, tuple)) else [out]
        outs = [np.array(cas.DM(o)) for o in outs]
    else:
        sym = getattr(cas, kind).sym
        syms = [sym(f"x{i}", *vec(a).shape) for i, a in enumerate(arrs)]
        out = f(*[a if k else s for a, s, k in zip(arrs, syms, keep)])
        outs = list(out) if isinstance(out, (list, tuple)) else [out]
        fn = cas.Function("f", syms, [getattr(cas, kind)(o) for o in outs])
        got = fn.call([cas.DM(vec(a)) for a in arrs])
        outs = [np.array(o) for o in got]
    return outs if isinstance(out, (list, tuple)) else outs[0]


def same(got, want, msg):
    want = np.asarray(want, float)
    ok = got.size == want.size and np.allclose(got.reshape(-1), want.reshape(-1), rtol=1e-9, atol=1e-9,
                                               equal_nan=True)
    if want.ndim == 2:
        ok = ok and got.shape == want.shape
    elif want.ndim == 1:
        ok = ok and (got.ndim == 1 or 1 in got.shape)
    if not ok:
        raise Violation(f"{msg}: casadi gives {got.tolist()!r}, numpy {want.tolist()!r}"[:900])


def agree(rng, name, arrs, f, g=None, mixed=False, kinds=("SX", "MX", "DM"), numeric=True):
    """f(module, *arrays) under casadi against numpy (or against g)."""
    want = f(np, *arrs) if g is None else g(*arrs)
    msg = f"{name} of shapes {[np.shape(a) for a in arrs]}"
    before = [np.copy(a) for a in arrs]
    got = evaluate(rng, lambda *a: f(cnp, *a), arrs, mixed, kinds)
    for a, b in zip(arrs, before):
        require(np.array_equal(a, b), f"{msg}: an argument was modified")
    if isinstance(want, (list, tuple)):
        require(isinstance(got, list) and len(got) == len(want), f"{msg}: number of results")
        for a, b in zip(got, want):
            same(a, b, msg)
    else:
        require(not isinstance(got, list), f"{msg}: a list")
        same(got, want, msg)
    if numeric:
        num = f(cnp, *arrs)
        for a, b in zip(num if isinstance(want, (list, tuple)) else [num],
                        want if isinstance(want, (list, tuple)) else [want]):
            a = np.asarray(a, float)
            require(a.shape == np.shape(b) and np.allclose(a, b, equal_nan=True),
                    f"{msg}: numeric arguments give {a!r}, numpy {b!r}"[:900])


def if_accepted(rng, name, arrs, f):
    """What is accepted under casadi agrees with numpy; it may be rejected."""
    try:
        want = f(np, *arrs)
        f(cnp, *[cas.DM(vec(a)) for a in arrs])
    except Exception:
        return
    agree(rng, name, arrs, f, kinds=("SX", "DM"), numeric=False)


@case(quick=150)
def elementwise(rng):
    ndim = int(rng.integers(3))
    a = array(rng, ndim)
    for n in UNARY:
        x = np.abs(a) + 0.1 if n in LOG else a
        agree(rng, n, [x], lambda m, x, n=n: getattr(m, n)(x))
    for n, g in TRIGD.items():
        x = np.clip(a, -0.9, 0.9) if n.startswith("arc") else 40 * a
        agree(rng, n, [x], lambda m, x, n=n: getattr(cnp, n)(x), g)
    lo, hi = sorted(rng.normal(size=2))
    agree(rng, "clip", [a], lambda m, x: m.clip(x, lo, hi))
    agree(rng, "logical_not", [a], lambda m, x: m.logical_not(x > 0))


@case(quick=100)
def binary(rng):
    ndim = int(rng.integers(3))
    a = array(rng, ndim)
    b = rng.normal(size=a.shape)
    if rng.random() < 0.5:
        a, b = np.round(a), np.round(b)
    if rng.random() < 0.3:
        b = np.array(float(rng.normal()))
        if rng.random() < 0.5:
            a, b = b, a
    for n in BINARY:
        x, y = (np.abs(a) + 0.1, b) if n == "power" else (a, b + 10.5) if n == "divide" else (a, b)
        agree(rng, n, [x, y], lambda m, x, y, n=n: getattr(m, n)(x, y), numeric=n not in ("minimum", "maximum"))
        if n in ("minimum", "maximum"):
            agree(rng, n, [x, y], lambda m, x, y, n=n: getattr(m, n)(x, y), mixed=True, numeric=False)
    agree(rng, "arctan2d", [a, b], lambda m, x, y: cnp.arctan2d(x, y), lambda x, y: np.rad2deg(np.arctan2(x, y)))
    for n in ("logical_and", "logical_or"):
        agree(rng, n, [a, b], lambda m, x, y, n=n: getattr(m, n)(x > 0.2, y < 0.1))
        agree(rng, n, [np.round(a), np.round(b)], lambda m, x, y, n=n: getattr(m, n)(x, y))
    agree(rng, "where", [a, b], lambda m, x, y: m.where(x > y, x * y, x - 2 * y))
    agree(rng, "where", [a], lambda m, x: m.where(x > 0.1, x, 0.0))
    agree(rng, "where", [a], lambda m, x: m.where(x > 0.1, 1.0, x))
    mask = rng.random(a.shape) < 0.5
    if a.shape:
        agree(rng, "where (numeric condition)", [a], lambda m, x: m.where(mask if m is np else vec(mask), x, -2 * x),
              numeric=False)


@case(quick=150)
def reductions(rng):
    for a in (np.array(rng.normal()), array(rng, 1), matrix(rng), array(rng, 2)):
        for n in ("sum", "mean"):
            f = lambda m, x, n=n: getattr(m, n)(x)
            agree(rng, n, [a], f)
            for axis in range(min(a.ndim, 2)):
                agree(rng, f"{n} axis {axis}", [a], lambda m, x, n=n: getattr(m, n)(x, axis=axis))
        for n in ("max", "min"):
            agree(rng, n, [a], lambda m, x, n=n: getattr(m, n)(x))
        b = np.round(a)
        for n in ("all", "any"):
            agree(rng, n, [b], lambda m, x, n=n: getattr(m, n)(x), kinds=("SX", "DM"))
            agree(rng, n, [a], lambda m, x, n=n: getattr(m, n)(x > 0), kinds=("SX", "DM"))
        x = cas.SX(vec(a))
        for n in ("sum", "mean"):
            raises(ValueError, lambda: getattr(cnp, n)(x, axis=2), f"{n} accepts axis 2 of a casadi array")
    v, M = array(rng, 1), matrix(rng)
    for ord in (None, 1, 2, 3, 2.5, np.inf):
        agree(rng, f"norm {ord}", [v], lambda m, x: m.linalg.norm(x, ord=ord))
        row = evaluate(rng, lambda x: cnp.linalg.norm(x, ord=ord), [v[None, :]])
        same(row, np.linalg.norm(v, ord=ord), f"norm {ord} of a row vector")
        agree(rng, f"norm {ord} axis 0", [v], lambda m, x: m.linalg.norm(x, ord=ord, axis=0))
        if ord != np.inf:
            for axis in (0, 1):
                agree(rng, f"norm {ord} axis {axis}", [M], lambda m, x: m.linalg.norm(x, ord=ord, axis=axis))
    for ord in (None, 1, np.inf, "fro"):
        agree(rng, f"norm {ord}", [M], lambda m, x: m.linalg.norm(x, ord=ord))
    raises(ValueError, lambda: cnp.linalg.norm(cas.SX(M), axis=2), "norm accepts axis 2 of a casadi array")
    for ord in (None, 0, 1, 2, 3, 0.5, -1, -2, np.inf, -np.inf):
        for axis in (None, -1, 0, 1):
            for x in (v, M):
                if_accepted(rng, f"norm {ord} axis {axis}", [x], lambda m, x: m.linalg.norm(x, ord=ord, axis=axis))
    for axis in (-1, -2):
        for n in ("sum", "mean"):
            if_accepted(rng, f"{n} axis {axis}", [M], lambda m, x: getattr(m, n)(x, axis=axis))


@case(quick=100)
def products(rng):
    n = int(rng.integers(1, 6))
    v, w = rng.normal(size=(2, n))
    u = array(rng, 1)
    agree(rng, "dot", [v, w], lambda m, x, y: m.dot(x, y), mixed=True)
    inner = lambda m, x, y: m.inner(x, y) if m is np else m.linalg.inner(x, y)
    outer = lambda m, x, y: m.outer(x, y) if m is np else m.linalg.outer(x, y)
    agree(rng, "inner", [v, w], inner, mixed=True)
    agree(rng, "outer", [v, u], outer)
    M, N = matrix(rng), matrix(rng)
    k = int(rng.integers(2, 5))
    P = rng.normal(size=(M.shape[1], k))
    R = rng.normal(size=(k, M.shape[1]))
    agree(rng, "matrix dot", [M, P], lambda m, x, y: m.dot(x, y))
    agree(rng, "matrix inner", [M, R], inner)
    agree(rng, "matmul", [M, P], lambda m, x, y: x @ y)
    agree(rng, "matmul", [M, P[:, 0]], lambda m, x, y: x @ y)
    n = int(rng.integers(1, 5))
    A = rng.normal(size=(n, n)) + 3 * np.eye(n)
    agree(rng, "solve", [A, rng.normal(size=n)], lambda m, x, y: m.linalg.solve(x, y))
    agree(rng, "solve", [A, rng.normal(size=(n, 3))], lambda m, x, y: m.linalg.solve(x, y))
    a, b = rng.normal(size=(2, 3))
    agree(rng, "cross", [a, b], lambda m, x, y: m.cross(x, y))
    for mixed in ((cas.DM(a), b), (a, cas.DM(b)), (cas.SX(a), b), (a, cas.SX(b))):
        same(np.array(cas.DM(cnp.cross(*mixed))), np.cross(a, b), "cross of a casadi and a numpy vector")
    A, B = rng.normal(size=(2, n, 3))
    for axis in (None, -1, 1):
        if n > 1:
            agree(rng, f"cross axis {axis}", [A, B], lambda m, x, y: m.cross(x, y, axis=axis), mixed=True)
    if n > 1:
        agree(rng, "cross axis 0", [A.T, B.T], lambda m, x, y: m.cross(x, y, axis=0))
        agree(rng, "cross axisa 0", [A.T, B], lambda m, x, y: m.cross(x, y, axisa=0))
        agree(rng, "cross axisb 0", [A, B.T], lambda m, x, y: m.cross(x, y, axisb=0))
        agree(rng, "cross axisc 0", [A, B], lambda m, x, y: m.cross(x, y, axisc=0))
    raises(ValueError, lambda: cnp.cross(cas.SX(A), cas.SX(B), axis=2), "cross accepts axis 2")
    agree(rng, "diag", [v], lambda m, x: m.diag(x))
    same(evaluate(rng, lambda x: cnp.diag(x), [v[None, :]]), np.diag(v), "diag of a row vector")
    t, ax = float(rng.normal()) * 3, rng.normal(size=3)
    agree(rng, "rotation_matrix_2D", [np.array(t)], lambda m, x: cnp.rotation_matrix_2D(x),
          lambda x: np.array([[np.cos(x), -np.sin(x)], [np.sin(x), np.cos(x)]]))

    def rodrigues(t, a):
        a = a / np.sqrt(a @ a)
        K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
        return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K
    agree(rng, "rotation_matrix_3D", [np.array(t), ax], lambda m, x, y: cnp.rotation_matrix_3D(x, y), rodrigues)
    e = ax / np.linalg.norm(ax)
    agree(rng, "rotation_matrix_3D (normalized)", [np.array(t), e],
          lambda m, x, y: cnp.rotation_matrix_3D(x, y, _axis_already_normalized=True), rodrigues)


@case(quick=100)
def structure(rng):
    n = int(rng.integers(1, 5))
    k = int(rng.integers(1, 4))
    vs = list(rng.normal(size=(k, n)))
    scal = [np.array(x) for x in rng.normal(size=int(rng.integers(1, 5)))]
    Ms = [rng.normal(size=(n + 1, int(rng.integers(1, 4)))) for _ in range(k)]
    for axis in (0, 1, -1, -2):
        agree(rng, f"stack axis {axis}", vs, lambda m, *a: m.stack(a, axis=axis), mixed=True)
    agree(rng, "stack", vs, lambda m, *a: m.stack(list(a)))
    agree(rng, "concatenate", [array(rng, 1) for _ in range(k)], lambda m, *a: m.concatenate(a), mixed=True)
    agree(rng, "concatenate axis 1", Ms, lambda m, *a: m.concatenate(a, axis=1), mixed=True)
    agree(rng, "concatenate axis 0", [M.T for M in Ms], lambda m, *a: m.concatenate(a, axis=0), mixed=True)
    agree(rng, "hstack", Ms, lambda m, *a: m.hstack(a), mixed=True, numeric=False)
    agree(rng, "vstack", [M.T for M in Ms], lambda m, *a: m.vstack(a), mixed=True, numeric=False)
    agree(rng, "column_stack", vs, lambda m, *a: m.column_stack(a), numeric=False)
    agree(rng, "row_stack", vs, lambda m, *a: m.row_stack(a), np.vstack and (lambda *a: np.vstack(a)), numeric=False)
    agree(rng, "array of scalars", scal, lambda m, *a: m.array(list(a) + [1.5]))
    agree(rng, "array of rows", scal, lambda m, *a: m.array([list(a) + [0.0], [2.0] + list(a)]))
    if n > 1:
        agree(rng, "array of vectors", vs, lambda m, *a: m.array(list(a)))
        for f in (cnp.column_stack, cnp.row_stack, cnp.stack):
            raises(ValueError, lambda: f([cas.SX(matrix(rng)), cas.SX(matrix(rng))]),
                   f"{f.__name__} accepts matrices")
    raises(ValueError, lambda: cnp.stack([cas.SX(vs[0]), cas.SX(vs[0])], axis=2), "stack accepts axis 2")
    raises(ValueError, lambda: cnp.concatenate([cas.SX(vs[0]), cas.SX(vs[0])], axis=2), "concatenate accepts axis 2")
    # splitting
    size = int(rng.integers(1, 9))
    v = rng.normal(size=size)
    M = rng.normal(size=(size, int(rng.integers(1, 4))))
    cuts = sorted(int(c) for c in rng.integers(0, size + 1, size=int(rng.integers(0, 4))))
    cuts = [cuts, tuple(cuts), np.array(cuts, int)][int(rng.integers(3))]
    parts = [d for d in range(1, size + 1) if size % d == 0]
    for spec in (cuts, parts[int(rng.integers(len(parts)))]):
        agree(rng, f"split {spec}", [v], lambda m, x: m.split(x, spec, axis=0), numeric=False)
        agree(rng, f"vsplit {spec}", [M], lambda m, x: m.vsplit(x, spec), numeric=False)
        agree(rng, f"hsplit {spec}", [M.T], lambda m, x: m.hsplit(x, spec), numeric=False)
        agree(rng, f"split {spec} last axis", [M.T], lambda m, x: m.split(x, spec, axis=-1), numeric=False)
    bad = [d for d in range(2, size) if size % d]
    if bad:
        raises(ValueError, lambda: cnp.split(cas.SX(v), bad[0], axis=0), "an uneven split is accepted")
    # reshaping, rolling, differences
    A = matrix(rng, 1)
    total = A.size
    rows = [d for d in range(1, total + 1) if total % d == 0]
    r = rows[int(rng.integers(len(rows)))]
    for shape in ((r, total // r), (r, -1), (-1, r)):
        agree(rng, f"reshape {shape}", [A], lambda m, x: m.reshape(x, shape))
        agree(rng, f"reshape {shape}", [A.ravel()], lambda m, x: m.reshape(x, shape))
    s = int(rng.integers(-7, 8))
    agree(rng, f"roll {s}", [v], lambda m, x: m.roll(x, s))
    for axis in (0, 1):
        agree(rng, f"roll {s} axis {axis}", [A], lambda m, x: m.roll(x, s, axis=axis))
    B = matrix(rng)
    agree(rng, f"roll {s}", [B], lambda m, x: m.roll(x, s))
    raises(Exception, lambda: cnp.roll(cas.SX(B), 1, axis=2), "roll accepts axis 2")
    v = rng.normal(size=int(rng.integers(2, 7)))
    for order in range(1, min(4, v.size)):
        agree(rng, f"diff {order}", [v], lambda m, x: m.diff(x, n=order))
    for order in range(1, min(4, B.shape[1])):
        agree(rng, f"diff {order}", [B], lambda m, x: m.diff(x, n=order))
    for order in (1, 2, 3, 4):
        for axis in (-1, 0, 1):
            if_accepted(rng, f"diff {order} axis {axis}", [B], lambda m, x: m.diff(x, n=order, axis=axis))

    def pieces(x, ends=False):
        out = (x[1:] + x[:-1]) / 2
        if ends:
            out[0] += x[0] / 2
            out[-1] += x[-1] / 2
        return out
    agree(rng, "trapz", [v], lambda m, x: cnp.trapz(x), pieces)
    agree(rng, "trapz with end points", [v], lambda m, x: cnp.trapz(x, modify_endpoints=True),
          lambda x: pieces(x, True))
    require(cnp.length(cas.SX(v)) == v.size and cnp.length(cas.SX(v).T) == v.size and cnp.length(v) == v.size
            and cnp.length(3.0) == 1 and cnp.length(cas.SX(B)) == B.shape[0], "length")
    for f, w in ((cnp.zeros, np.zeros), (cnp.ones, np.ones)):
        if f is cnp.ones or True:
            same(np.array(cas.DM(f(B.shape))), w(B.shape), "zeros/ones")
            same(np.array(cas.DM(f(v.size))), w(v.size), "zeros/ones")
    same(np.array(cas.DM(cnp.eye(n))), np.eye(n), "eye")
    same(np.array(cas.DM(cnp.zeros_like(cas.SX(B)))), np.zeros(B.shape), "zeros_like")


@case(quick=60)
def spacing(rng):
    a, b = rng.normal(size=2)
    n = int(rng.integers(2, 9))
    A, B = np.array(a), np.array(b)
    agree(rng, "linspace", [A, B], lambda m, x, y: m.linspace(x, y, n))
    agree(rng, "logspace", [A, B], lambda m, x, y: m.logspace(x, y, n))
    agree(rng, "cosspace", [A, B], lambda m, x, y: cnp.cosspace(x, y, n),
          lambda x, y: (x + y) / 2 + (y - x) / 2 * np.cos(np.linspace(np.pi, 0, n)))
    agree(rng, "geomspace", [np.exp(A), np.exp(B)], lambda m, x, y: m.geomspace(x, y, n), kinds=("DM",))
    # finite difference weights are exact on the polynomials below the number of points
    k = int(rng.integers(2, 6))
    x = np.cumsum(rng.uniform(0.3, 1.0, size=k))
    rng.shuffle(x)
    x0, d = float(rng.normal()), int(rng.integers(1, k))

    def weights(x):
        V = np.vander(x, increasing=True).T
        rhs = [np.polynomial.polynomial.Polynomial([0] * p + [1]).deriv(d)(x0) for p in range(k)]
        return np.linalg.solve(V, rhs)
    agree(rng, f"finite_difference_coefficients degree {d}", [x],
          lambda m, x: cnp.finite_difference_coefficients(x, x0, d), weights)
    raises(ValueError, lambda: cnp.finite_difference_coefficients(x, x0, k), "too few points are accepted")
    raises(ValueError, lambda: cnp.finite_difference_coefficients(x, x0, 0), "a derivative of degree 0 is accepted")


@case(quick=80)
def interpolation(rng):
    n = int(rng.integers(2, 7))
    xp = np.cumsum(rng.uniform(0.2, 1.5, size=n)) + rng.normal()
    fp = rng.normal(size=n)
    kw = {}
    if rng.random() < 0.5:
        kw["left"] = float(rng.normal()) * int(rng.integers(4) > 0)
    if rng.random() < 0.5:
        kw["right"] = float(rng.normal()) * int(rng.integers(4) > 0)
    pts = [xp[0], xp[-1], xp[0] - 0.7, xp[-1] + 0.7, xp[int(rng.integers(n))]] + list(rng.uniform(xp[0], xp[-1], size=3))
    for x in pts:
        agree(rng, f"interp {kw}", [np.array(x)], lambda m, t: m.interp(t, xp, fp, **kw), kinds=("MX", "DM"),
              numeric=False)
    raises(Exception, lambda: cnp.interp(cas.MX.sym("x"), xp, fp, period=2.0), "interp accepts a period")


@case(quick=60)
def vectors(rng):
    """The backend-agnostic vector helpers."""
    n = int(rng.integers(2, 8))
    parts = [array(rng, 1) for _ in range(int(rng.integers(1, 4)))]
    v = rng.normal(size=n)
    cuts = sorted(int(c) for c in rng.integers(0, n + 1, size=int(rng.integers(0, 4))))
    reps = int(rng.integers(1, 5))
    with lnp.use_backend("casadi"):
        same(evaluate(rng, lambda *a: lnp.vector_concat(a), parts), np.concatenate(parts), "vector_concat")
        got = evaluate(rng, lambda a: lnp.vector_split(a, cuts), [v])
        want = np.split(v, cuts)
        require(len(got) == len(want), "vector_split: number of parts")
        for a, b in zip(got, want):
            same(a, b, f"vector_split {cuts}")
        same(evaluate(rng, lambda a: lnp.vector_tile(a, reps), [v]), np.tile(v, (reps, 1)), "vector_tile")
    for backend in ("numpy", "jax"):
        with lnp.use_backend(backend):
            same(np.asarray(lnp.vector_concat(parts)), np.concatenate(parts), f"vector_concat ({backend})")
            got = lnp.vector_split(v, cuts)
            require(len(got) == len(want), "vector_split: number of parts")
            for a, b in zip(got, want):
                same(np.asarray(a), b, f"vector_split {cuts} ({backend})")
            same(np.asarray(lnp.vector_tile(v, reps)), np.tile(v, (reps, 1)), f"vector_tile ({backend})")


@case(quick=3)
def row_roll(rng):
    """A row vector rolled without an axis (known finding: the tests of the repository pin the wrong result)."""
    v = np.arange(1.0, 4.0)
    got = evaluate(rng, lambda x: cnp.roll(x, 1), [v[None, :]])
    same(got, np.roll(v[None, :], 1), "roll of a row vector without an axis")

"""C06: transcription schemes and Lagrange matrices are exact on polynomials."""
import types

from contracts.common import *
from lumver import symnp
import lumos.optimal_control.collocation as col
import lumos.optimal_control.transcription as trn
from lumos.optimal_control.collocation import CollocationEnum
from lumos.optimal_control.transcription import make_transcription, get_transcription_options

assume_note("scipy.interpolate.lagrange(s, w): the polynomial of degree < n through (s_i, w_i) for distinct s_i, that is "
            "sum_i w_i L_i with the cardinal polynomials L_i of s; .coef from the highest power.")
assume_note("numpy Polynomial(c): sum_k c_k t^k; deriv() its derivative, integ() its antiderivative that vanishes at 0.")
assume_note("numpy Legendre(c): sum_k c_k P_k; deriv() its derivative; roots() its real roots, increasing.")
assume_note("scipy.sparse.diags by its documentation: the k-th diagonal holds the value, zero elsewhere.")
assume_note("Lagrange's theorem: sum_i p(s_i) L_i = p for every polynomial p of degree < n (distinct s_i); theorems on the "
            "zeros of Legendre polynomials: P_n, P_{n-1} + P_n and P'_{n-1} have simple real zeros in [-1, 1], -1 is the "
            "first zero of P_{n-1} + P_n, and the resulting Gauss, Radau and Lobatto quadratures have the degrees "
            "2n-1, 2n-2, 2n-3. Zeros and cardinal polynomials are computed exactly (conditioning is tested, not proved).")

E = lambda t, *k: lift(elem(t, *k))


class Card:
    """sum_j w_j f(j, .) for the cardinal polynomials of a support, their derivatives or antiderivatives."""

    def __init__(self, w, order=0):
        self.w, self.order = w, order

    def deriv(self, m=1):
        return Card(self.w, self.order + m)

    def integ(self, m=1):
        return Card(self.w, self.order - m)

    def __sym_rename__(self, k, n, to):
        from lumver.rt import rename
        return Card(rename(self.w, k, n, to), self.order)

    def value(self, t):
        n = self.w.spaces[0].size()
        return ssum(n, lambda j: E(self.w, j) * cardinal(self.order, j, t))

    def __call__(self, t):
        if isinstance(t, T):
            return T(t.spaces, lambda *c: self.value(lift(t.el(*c))), "real")
        return self.value(lift(t))


def cardinal(order, j, t):
    return read(f"L[{order}]", [j, t])


class Lib:
    """The dependencies of the Lagrange matrices by contract."""

    def __init__(self, support):
        self.support, self.n, self.made = support, support.spaces[0].size(), []

    def lagrange(self, s, w):
        CTX.require_eq("lagrange: one weight per support point", w.spaces[0].size(), s.spaces[0].size())
        k = idx("k", self.n)
        CTX.require_eq("lagrange on the support", E(s, k), E(self.support, k))
        coef = vec("coef", self.n)
        self.made.append((coef, w))
        return types.SimpleNamespace(coef=coef)

    def polynomial(self, c):
        coef, w = self.made[-1]
        CTX.require_eq("number of coefficients", c.spaces[0].size(), self.n)
        k = idx("k", self.n)
        CTX.require_eq("coefficients from the lowest power", E(c, k), E(coef, self.n - 1 - k))
        return Card(w)


def with_lib(support, f, *a, **k):
    lib = Lib(support)
    keep = col.lagrange, col.Polynomial
    col.lagrange, col.Polynomial = lib.lagrange, lib.polynomial
    try:
        return f(*a, **k)
    finally:
        col.lagrange, col.Polynomial = keep


def setting():
    n, m = CTX.size("n", 1), CTX.size("m", 1)
    return n, m, vec("s", n), vec("t", m)


@goal("basis: the i-th polynomial has the i-th unit vector as values on the support")
def basis():
    n, m, s, t = setting()
    if CTX.choose(2):
        i = idx("i", n)
        p = with_lib(s, col.make_lagrange_polynomial, s, i)
    else:
        b = with_lib(s, col.make_lagrange_basis, s)
        CTX.require_eq("one polynomial per support point", as_seq(b).length(), n)
        i = idx("i", n)
        p = with_lib(s, as_seq(b).get, i)
    CTX.require_eq("order", const(p.order), const(0))
    j = idx("j", n)
    CTX.require_eq("weights", E(p.w, j), iverson(eq(i, j)))


@goal("differentiation matrix: derivatives of the cardinal polynomials at the evaluation points")
def differentiation():
    n, m, s, t = setting()
    D = with_lib(s, col.build_lagrange_differential_matrix, s, t)
    shape_is("matrix", D, m, n)
    e, i = idx("e", m), idx("i", n)
    CTX.require_eq("entry", with_lib(s, E, D, e, i), cardinal(1, i, E(t, e)))


@goal("integration matrix: integrals of the cardinal polynomials from the first support point")
def integration():
    n, m, s, t = setting()
    I = with_lib(s, col.build_lagrange_integration_matrix, s, t)
    shape_is("matrix", I, m, n)
    e, i = idx("e", m), idx("i", n)
    CTX.require_eq("entry", with_lib(s, E, I, e, i), cardinal(-1, i, E(t, e)) - cardinal(-1, i, E(s, const(0))))


# ------------------------------------------------------------------ collocation points
class Leg:
    """Contract of a Legendre series with zeros named after it: increasing, in [-1, 1]."""

    def __init__(self, c, order=0):
        self.c = c if isinstance(c, T) else symnp.asT(symnp.array(as_seq(c) if not isinstance(c, list) else c))
        self.order = order

    def deriv(self, m=1):
        return Leg(self.c, self.order + m)

    def roots(self):
        n = self.c.spaces[0].size() - 1 - self.order
        Leg.last = self
        CTX.array_bounds("root", lambda *c: (const(-1), const(1)))
        return vec("root", n)


@goal("collocation points: the family's polynomial, its zeros (mirrored for Radau, with both ends for Lobatto)")
def points():
    f = [CollocationEnum.LG, CollocationEnum.LGR, CollocationEnum.LGL][CTX.choose(3)]
    n = CTX.size("n", 2 if f is CollocationEnum.LGL else 1)
    keep, col.Legendre = col.Legendre, Leg
    try:
        default = f is CollocationEnum.LGR and CTX.choose(2)
        p = col.get_collocation_points(n) if default else col.get_collocation_points(n, f)
    finally:
        col.Legendre = keep
    shape_is("points", p, n)
    c = Leg.last.c
    k, top = idx("k", c.spaces[0].size()), {"LG": n, "LGR": n, "LGL": n - 1}[f.name]
    CTX.require_eq("highest polynomial", c.spaces[0].size(), top + 1)
    CTX.require_eq("coefficients", E(c, k), iverson(eq(k, top)) + (iverson(eq(k, n - 1)) if f.name == "LGR" else 0))
    CTX.require_eq("derivative", const(Leg.last.order), const(1 if f.name == "LGL" else 0))
    k = idx("k", n)
    r = lambda j: read("root", [j])
    if f.name == "LG":
        want = r(k)
    elif f.name == "LGR":
        want = -r(n - 1 - k)
    elif bool(eq(k, const(0))):
        want = const(-1)
    elif bool(eq(k, n - 1)):
        want = const(1)
    else:
        want = r(k - 1)
    CTX.require_eq("point", E(p, k), want)


@goal("collocation points: other families and fewer than one point are rejected")
def bad_points():
    c = CTX.choose(3)
    if c == 0:
        expect_raises("a family that is none", TypeError, lambda: col.get_collocation_points(CTX.size("n", 1), "LGR"))
    elif c == 1:
        n = sym("n", "int")
        CTX.assume(ge0(-n))
        expect_raises("no points", AssertionError, lambda: col.get_collocation_points(n))
    else:
        expect_raises("no points", AssertionError, lambda: col.get_collocation_points(0, CollocationEnum.LGL))


# ------------------------------------------------------------------ schemes
def poly(d, t):
    """A polynomial of degree d with arbitrary coefficients, and its derivative."""
    a = [sym(f"a{k}") for k in range(d + 1)]
    p = q = const(0)
    for k in range(d + 1):
        p = p + a[k] * t ** k
        if k:
            q = q + k * a[k] * t ** (k - 1)
    return p, q


@goal("two-stage schemes: exact for every polynomial up to degree one (Euler) and two (trapezoidal)")
def two_stage():
    name = ("ForwardEuler", "Trapezoidal")[CTX.choose(2)]
    s = make_transcription(name)
    CTX.require("stages", s.num_stages_per_interval == 2 and s.num_constraints_per_interval == 1)
    A, B = s.get_continuity_matrices()
    t0, h = sym("t0"), sym("h")
    pts = [poly(1 if name == "ForwardEuler" else 2, t0 + h * tau) for tau in (0, 1)]
    a = lambda M, v: symnp.matmul(symnp.asT(M), symnp.array(v))
    CTX.require_eq("A p = h B p'", E(a(A, [p for p, _ in pts]), const(0)), h * E(a(B, [q for _, q in pts]), const(0)))
    z = E(symnp.asT(A), const(0), const(1))
    CTX.require("the end state is determined", z.is_const() and z.const() != 0)
    r = s.continuity_con(symnp.array([[p] for p, _ in pts]), symnp.array([[q] for _, q in pts]), h)
    CTX.require_eq("continuity_con", E(symnp.ravel(symnp.asT(r)), const(0)), const(0))


def diags(values, offsets, shape):
    if len(values) != 1:
        raise Unsupported("several diagonals of symbolic shape")
    v, o = lift(values[0]), lift(offsets[0])
    r = T([Atm(lift(d)) for d in shape], lambda i, j: v * iverson(eq(lift(j) - lift(i), o)), "real")
    return types.SimpleNamespace(toarray=lambda: r)


def scheme(name):
    """An LGR scheme over the contracts of the points and of the Lagrange matrices."""
    M = CTX.size("M", 2)
    w = types.SimpleNamespace(M=M)

    def points(num_points, scheme=CollocationEnum.LGR):
        CTX.require("family", scheme is CollocationEnum.LGR)
        CTX.require_eq("number of collocation points", lift(num_points), M - 1)
        CTX.array_bounds("radau", lambda *c: (const(-1), const(1)))
        return vec("radau", num_points)

    def matrix(order):
        def f(support, evaluation_points):
            n, m = support.spaces[0].size(), evaluation_points.spaces[0].size()
            for t, k in ((support, n), (evaluation_points, m)):
                w.__dict__.setdefault("seen", []).append((order, support, evaluation_points))
            v = lambda o, e, i: cardinal(o, lift(i), E(evaluation_points, e))
            if order == 1:
                return T([Atm(m), Atm(n)], lambda e, i: v(1, e, i), "real")
            return T([Atm(m), Atm(n)], lambda e, i: v(-1, e, i) - cardinal(-1, lift(i), E(support, const(0))), "real")
        return f
    new = dict(get_collocation_points=points, build_lagrange_differential_matrix=matrix(1),
               build_lagrange_integration_matrix=matrix(-1), diags=diags)
    keep = {k: getattr(trn, k) for k in new}
    try:
        for k, v in new.items():
            setattr(trn, k, v)
        w.s = make_transcription(name, {"num_stages": M})
        w.A, w.B = w.s.get_continuity_matrices()
    finally:
        for k, v in keep.items():
            setattr(trn, k, v)
    return w


def tau(k):
    """Stage points in [0, 1]: zero, then the Radau points moved from [-1, 1]."""
    k = lift(k)
    return const(0) if bool(eq(k, const(0))) else (read("radau", [k - 1]) + 1) / 2


@goal("LGR schemes: stage points, row counts; matrices over the polynomials through all stage points")
def radau():
    name = ("LGR", "LGRIntegral")[CTX.choose(2)]
    w = scheme(name)
    M = w.M
    CTX.require_eq("stages", lift(w.s.num_stages_per_interval), M)
    CTX.require_eq("rows", lift(w.s.num_constraints_per_interval), M - 1)
    shape_is("A", w.A, M - 1, M)
    shape_is("B", w.B, M - 1, M)
    shape_is("stage points", w.s.interp_points, M)
    shape_is("collocation points", w.s.collocation_points, M - 1)
    k, e, i = idx("k", M), idx("e", M - 1), idx("i", M)
    CTX.require_eq("stage point", E(w.s.interp_points, k), tau(k))
    CTX.require_eq("collocation point", E(w.s.collocation_points, e), tau(e + 1))
    for order, sup, ev in w.seen:
        CTX.require_eq("support: all stage points", E(sup, k), tau(k))
        CTX.require_eq("as many as stages", sup.spaces[0].size(), M)
    a, b = E(w.A, e, i), E(w.B, e, i)
    if name == "LGR":
        CTX.require_eq("A: derivative at the next stage point", a, cardinal(1, i, tau(e + 1)))
        CTX.require_eq("B: the next stage", b, iverson(eq(i, e + 1)))
    else:
        CTX.require_eq("A: difference to the first stage", a, iverson(eq(i, e + 1)) - iverson(eq(i, const(0))))
        CTX.require_eq("B: integral from the first stage point", b,
                       cardinal(-1, i, tau(e + 1)) - cardinal(-1, i, const(0)))


@goal("LGR schemes: A p = h B p' follows from Lagrange's theorem")
def exact():
    """p over the interval of length h as p(tau); its derivative in time is p'(tau) / h."""
    name = ("LGR", "LGRIntegral")[CTX.choose(2)]
    w = scheme(name)
    M, h = w.M, sym("h")
    e = idx("e", M - 1)
    P = lambda o, j: read(f"p[{o}]", [tau(j)])     # p, p' at the stage points, as functions of tau
    x = T([Atm(M)], lambda j: P(0, j), "real")
    xd = T([Atm(M)], lambda j: P(1, j), "real")    # h p'(t) = p'(tau)
    lhs = E(symnp.matmul(w.A, x), e)
    rhs = E(symnp.matmul(w.B, xd), e)
    if name == "LGR":
        # theorem: sum_i p(tau_i) L_i' = p'
        CTX.require_eq("p' at the next point", lhs, ssum(M, lambda j: cardinal(1, j, tau(e + 1)) * P(0, j)))
        CTX.require_eq("right side", rhs, P(1, e + 1))
    else:
        # theorem: sum_i p'(tau_i) (int L_i) = int p'
        CTX.require_eq("p at the next point less at the first", lhs, P(0, e + 1) - P(0, const(0)))
        CTX.require_eq("integral of p'", rhs, ssum(M, lambda j: P(1, j) * (
            cardinal(-1, j, tau(e + 1)) - cardinal(-1, j, const(0)))))
    X, XD = arr("X", M, 2), arr("XD", M, 2)
    keep, trn.diags = trn.diags, diags
    try:
        r = w.s.continuity_con(X, XD, h)
    finally:
        trn.diags = keep
    d = idx("d", const(2))
    CTX.require_eq("continuity_con: A x - h B x'", E(r, e, d),
                   E(symnp.matmul(w.A, X), e, d) - h * E(symnp.matmul(w.B, XD), e, d))


class Unknown(str):
    """Any name that is none of the schemes."""
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


@goal("schemes by name; every other name is rejected")
def names_of_schemes():
    options = ("ForwardEuler", "Trapezoidal", "LGR", "LGRIntegral")
    CTX.require("options", sorted(get_transcription_options()) == sorted(options))
    c = CTX.choose(6)
    if c < 4:
        import numpy
        keep, trn.get_collocation_points = trn.get_collocation_points, lambda num_points, *a, **k: numpy.linspace(-0.5, 1, num_points)
        try:
            for kw in ((), (None,), ({},)):
                CTX.require("the named scheme", type(make_transcription(options[c], *kw)).__name__ == options[c])
        finally:
            trn.get_collocation_points = keep
    elif c == 4:
        expect_raises("unknown name", RuntimeError, lambda: make_transcription(Unknown("?")))
    else:
        expect_raises("unknown name", RuntimeError, lambda: make_transcription(Unknown("?"), {"num_stages": 3}))


@canary("evaluation points instead of support points must be refuted")
def wrong_support():
    n, m, s, t = setting()
    D = with_lib(s, col.build_lagrange_differential_matrix, s, t)
    e, i = idx("e", m), idx("i", n)
    CTX.require_eq("entry", with_lib(s, E, D, e, i), cardinal(1, i, E(s, i)))


@canary("trapezoidal rule exact for cubics must be refuted")
def wrong_degree():
    A, B = make_transcription("Trapezoidal").get_continuity_matrices()
    h = sym("h")
    pts = [poly(3, h * tau) for tau in (0, 1)]
    a = lambda M, v: symnp.matmul(symnp.asT(M), symnp.array(v))
    CTX.require_eq("A p = h B p'", E(a(A, [p for p, _ in pts]), const(0)), h * E(a(B, [q for _, q in pts]), const(0)))

"""C15: curvature, heading and widths of a track in arc length."""
import types

from contracts.common import *
from lumver import symnp
import lumos.models.tracks as tr
from lumos.models.tracks import ConstCurvTrack, RaceTrack

assume_note("np.interp, np.gradient, np.cumsum, np.diff, np.insert by their documented contracts; real arithmetic.")
assume_note("Distinct consecutive points (nonzero segment lengths and tangents), as curvature is not defined otherwise.")
assume_note("pandas: read_csv gives a table with the file's columns by name.")

E = lambda t, k: lift(elem(t, k))


def line(least=2):
    n = CTX.size("n", least)
    return n, vec("x", n), vec("y", n)


def grad(f, s, n):
    """First derivative by finite differences: second order inside, one-sided at the ends."""
    def at(k):
        k = lift(k)
        if bool(eq(k, const(0))):
            return (f(const(1)) - f(const(0))) / (s(const(1)) - s(const(0)))
        if bool(eq(k, n - 1)):
            return (f(n - 1) - f(n - 2)) / (s(n - 1) - s(n - 2))
        a, b = s(k) - s(k - 1), s(k + 1) - s(k)
        return (a * a * f(k + 1) + (b * b - a * a) * f(k) - b * b * f(k - 1)) / (a * b * (a + b))
    return at


def curv(x, y, s, n):
    dx, dy = grad(x, s, n), grad(y, s, n)
    ddx, ddy = grad(dx, s, n), grad(dy, s, n)

    def at(k):
        d = dx(k) * dx(k) + dy(k) * dy(k)
        return (dx(k) * ddy(k) - dy(k) * ddx(k)) / (d * d.sqrt())
    return at, dx, dy


class Np:
    """numpy, with np.gradient by contract: a function of its arguments, which the lemmas below spell out."""

    def __init__(self):
        self.calls, self.np = [], tr.np

    def __getattr__(self, name):
        return getattr(self.np, name)

    def gradient(self, f, s):
        for f2, s2, r in self.calls:
            if self.same(f, f2) and self.same(s, s2):
                return r
        r = vec(f"grad{len(self.calls)}", f.spaces[0].size())
        CTX.require("gradient: at least two entries", CTX.prove(ge0(f.spaces[0].size() - 2)))
        CTX.require_eq("gradient: one coordinate per entry", s.spaces[0].size(), f.spaces[0].size())
        self.calls.append((f, s, r))
        return r

    def same(self, f, g):
        if f is g:
            return True
        n = f.spaces[0].size()
        if not CTX.prove(eq(n, g.spaces[0].size())):
            return False
        i = fresh("i")
        with CTX.local_vars([(i, n)]):
            return CTX.prove(eq(E(f, i), E(g, i)))


def curvilinear(x, y):
    w = Np()
    keep, tr.np = tr.np, w
    try:
        return w.gradient, *tr.cartesian_to_curvilinear(x, y)
    finally:
        tr.np = keep


@goal("arc length: zero at the first point, growing by the distance of the points")
def length():
    n, x, y = line()
    s, k, h = tr.cartesian_to_curvilinear(x, y)
    shape_is("arc length", s, n)
    CTX.require_eq("first", E(s, const(0)), const(0))
    i = idx("i", n - 1)
    dx, dy = E(x, i + 1) - E(x, i), E(y, i + 1) - E(y, i)
    CTX.require_eq("segment", E(s, i + 1) - E(s, i), (dx * dx + dy * dy).sqrt())


@goal("curvature: the signed curvature formula of the finite differences in arc length")
def curvature():
    n, x, y = line()
    D, s, k, h = curvilinear(x, y)
    shape_is("curvature", k, n)
    dx, dy = D(x, s), D(y, s)
    ddx, ddy = D(dx, s), D(dy, s)
    i = idx("i", n)
    a, b = E(dx, i), E(dy, i)
    q = a * a + b * b
    CTX.require_eq("curvature", E(k, i), (a * E(ddy, i) - b * E(ddx, i)) / (q * q.sqrt()))


@goal("heading: along the line at its start, then accumulating the curvature")
def heading():
    n, x, y = line()
    D, s, k, h = curvilinear(x, y)
    shape_is("heading", h, n)
    dx, dy = D(x, s), D(y, s)
    CTX.require_eq("start", E(h, const(0)), symnp.arctan2(E(dy, const(0)), E(dx, const(0))))
    i = idx("i", n - 1)
    CTX.require_eq("growth", E(h, i + 1) - E(h, i), (E(k, i) + E(k, i + 1)) / 2 * (E(s, i + 1) - E(s, i)))


# ------------------------------------------------------------------ the finite differences
def three():
    """Values at three neighbouring samples and the two distances between them."""
    a, b = sym("a"), sym("b")
    CTX.assume(ge0(a))
    CTX.assume(ge0(b))
    return a, b


def inner(f0, f1, f2, a, b):
    return (a * a * f2 + (b * b - a * a) * f1 - b * b * f0) / (a * b * (a + b))


@goal("lemma: finite differences are linear, vanish on constants and are exact for parabolas inside")
def differences():
    a, b = three()
    f = [sym(f"f{j}") for j in range(3)]
    g = [sym(f"g{j}") for j in range(3)]
    c, d = sym("c"), sym("d")
    mix = [c * u + d * v for u, v in zip(f, g)]
    CTX.require_eq("linear", inner(*mix, a, b), c * inner(*f, a, b) + d * inner(*g, a, b))
    CTX.require_eq("constants", inner(c, c, c, a, b) * (a * b * (a + b)), const(0))
    s = sym("s")
    p = lambda t: c + d * t + sym("e") * t * t
    CTX.require_eq("parabolas", (inner(p(s - a), p(s), p(s + b), a, b) - (d + 2 * sym("e") * s)) * (a * b * (a + b)),
                   const(0))


@goal("the finite-difference contract: that formula inside, one-sided at the ends")
def contract_of_gradient():
    n = CTX.size("n", 2)
    f, s = vec("f", n), vec("s", n)
    g = symnp.gradient(f, s)
    i = idx("i", n)
    F, S = lambda k: E(f, k), lambda k: E(s, k)
    if bool(eq(i, const(0))):
        CTX.require_eq("first", E(g, i), (F(const(1)) - F(const(0))) / (S(const(1)) - S(const(0))))
    elif bool(eq(i, n - 1)):
        CTX.require_eq("last", E(g, i), (F(n - 1) - F(n - 2)) / (S(n - 1) - S(n - 2)))
    else:
        CTX.require_eq("inside", E(g, i), inner(F(i - 1), F(i), F(i + 1), S(i) - S(i - 1), S(i + 1) - S(i)))


def transformed(c, d, m, e1, e2):
    """The code on the line (c x - d y + e1, m (d x + c y) + e2); gradients by the lemma above."""
    n, x, y = line()
    w = Np()
    keep, tr.np = tr.np, w
    try:
        s, k, h = tr.cartesian_to_curvilinear(x, y)
        dx, dy = w.gradient(x, s), w.gradient(y, s)
        ddx, ddy = w.gradient(dx, s), w.gradient(dy, s)
        X, Y = c * x - d * y, m * (d * x + c * y)
        DX, DY = c * dx - d * dy, m * (d * dx + c * dy)
        w.calls = [(X + e1, s, DX), (Y + e2, s, DY),
                   (DX, s, c * ddx - d * ddy), (DY, s, m * (d * ddx + c * ddy))] + w.calls
        s2, k2, h2 = tr.cartesian_to_curvilinear(X + e1, Y + e2)
    finally:
        tr.np = keep
    return n, (s, k, h), (s2, k2, h2), (dx, dy), (DX, DY)


@goal("turning and moving the line keeps arc length, curvature and the growth of the heading", timeout=300)
def turned():
    th = sym("theta")
    c, d = th.cos(), th.sin()
    n, (s, k, h), (s2, k2, h2), (dx, dy), (DX, DY) = transformed(c, d, 1, sym("e1"), sym("e2"))
    i = idx("i", n)
    CTX.require_eq("arc length", E(s2, i), E(s, i))
    CTX.require_eq("curvature", E(k2, i), E(k, i))
    z = const(0)
    CTX.require_eq("heading along the turned line: start", E(h2, z), symnp.arctan2(E(DY, z), E(DX, z)))
    CTX.require_eq("heading: growth", E(h2, i) - E(h2, z), E(h, i) - E(h, z))


@goal("mirroring the line flips the curvature and keeps the arc length", timeout=300)
def mirrored():
    n, (s, k, h), (s2, k2, h2), _, _ = transformed(const(1), const(0), -1, sym("e1"), sym("e2"))
    i = idx("i", n)
    CTX.require_eq("arc length", E(s2, i), E(s, i))
    CTX.require_eq("curvature", E(k2, i), -E(k, i))


# ------------------------------------------------------------------ from curvature
@goal("from curvature: heading accumulates curvature, position accumulates the heading")
def integrate():
    n = CTX.size("n", 1)
    s, k = vec("s", n), vec("k", n)
    if CTX.choose(2):
        x0, y0, h0 = sym("x0"), sym("y0"), sym("h0")
        x, y, h = tr.curvilinear_to_cartesian(s, k, x0, y0, h0)
    else:
        x0, y0, h0 = const(0), const(0), const(0)
        x, y, h = tr.curvilinear_to_cartesian(s, k)
    for name, v, v0 in (("x", x, x0), ("y", y, y0), ("heading", h, h0)):
        shape_is(name, v, n)
        CTX.require_eq(name + " at the start", E(v, const(0)), v0)
    i = idx("i", n - 1)
    ds = E(s, i + 1) - E(s, i)
    step = lambda v: E(v, i + 1) - E(v, i)
    CTX.require_eq("heading", step(h), (E(k, i) + E(k, i + 1)) / 2 * ds)
    CTX.require_eq("x", step(x), (E(h, i).cos() + E(h, i + 1).cos()) / 2 * ds)
    CTX.require_eq("y", step(y), (E(h, i).sin() + E(h, i + 1).sin()) / 2 * ds)


# ------------------------------------------------------------------ the track
SAMPLES = ("curvature", "heading", "left_distance", "right_distance")


class Interp(Np):
    """numpy, with np.interp by contract: a function of the distance and the samples (linear interpolation)."""

    def interp(self, q, xp, fp):
        n = fp.spaces[0].size()
        CTX.require_eq("interp: one distance per sample", xp.spaces[0].size(), n)
        for q2, x2, f2, r in self.calls:
            if CTX.prove(eq(lift(q), lift(q2))) and self.same(xp, x2) and self.same(fp, f2):
                return r
        r = sym(f"interpolated{len(self.calls)}")
        self.calls.append((q, xp, fp, r))
        return r


def column(n, f):
    """The vector f(0), ..., f(n-1)."""
    return T([Atm(n)], lambda k: lift(f(lift(k))), "real")


def queries(t, n, s, data):
    """Every query is the linear interpolation of the samples over the distance from the first sample."""
    S = lambda j: E(s, j) - E(s, const(0))
    CTX.require_eq("total distance", lift(t.total_distance), S(n - 1))
    name = SAMPLES[CTX.choose(4)]
    w = Interp()
    keep, tr.np = tr.np, w
    q = sym("q")
    try:
        r = getattr(t, name + "_at")(q)
    finally:
        tr.np = keep
    v = data[name]
    want = w.interp(q, column(n, S), v if isinstance(v, T) else column(n, lambda k: const(v)))
    CTX.require_eq(name, lift(r), want)


def widths(n):
    kw = {side: vec(side, n) for side in ("left_distance", "right_distance")}
    d = dict(kw)
    for side in list(kw):
        if CTX.choose(2):
            kw.pop(side)
            d[side] = 5
    return kw, d


@goal("a track answers with the linear interpolation of its samples")
def samples():
    n = CTX.size("n", 2)
    kw, d = widths(n)
    own = {k: vec(k, n) for k in ("x", "y", "s", "curvature", "heading")}
    t = RaceTrack(**own, **kw)
    queries(t, n, own["s"], {**own, **d})


class Curves(Np):
    """Contract of cartesian_to_curvilinear (goals above): a function of the line."""

    def __call__(self, x, y):
        for x2, y2, r in self.calls:
            if self.same(x, x2) and self.same(y, y2):
                return r
        n = x.spaces[0].size()
        r = tuple(vec(f"{k}{len(self.calls)}", n) for k in ("arc", "curv", "head"))
        self.calls.append((x, y, r))
        return r


def by_contract(build):
    c = Curves()
    keep, tr.cartesian_to_curvilinear = tr.cartesian_to_curvilinear, c
    try:
        return build(), c
    finally:
        tr.cartesian_to_curvilinear = keep


@goal("a track from a centre line: its arc length, curvature, heading and widths", timeout=300)
def from_line():
    n, x, y = line()
    kw, d = widths(n)
    t, c = by_contract(lambda: RaceTrack.from_cartesian(x, y, **kw))
    s, k, h = c(x, y)
    queries(t, n, s, dict(d, curvature=k, heading=h))


@goal("a track from curvature: its arc length, curvature, heading and widths", timeout=300)
def from_curvature():
    n = CTX.size("n", 2)
    s, k = vec("s", n), vec("k", n)
    kw, d = widths(n)
    h0 = [const(0), sym("h0")][CTX.choose(2)]
    t = RaceTrack.from_curvilinear(s, k, **({} if h0.is_const() else dict(heading0=h0)), **kw)
    queries(t, n, s, dict(d, curvature=k, heading=tr.curvilinear_to_cartesian(s, k, heading0=h0)[2]))


@goal("a track file: the named columns are the line and the widths of either side", timeout=300)
def from_file():
    n, x, y = line()
    table = {"# x_m": x, "y_m": y, "w_tr_right_m": vec("right", n), "w_tr_left_m": vec("left", n)}

    def read_csv(path):
        CTX.require("the file", path == "some file")
        return table
    keep, tr.pd = tr.pd, types.SimpleNamespace(read_csv=read_csv)
    try:
        t, c = by_contract(lambda: RaceTrack.from_tum_csv("some file"))
    finally:
        tr.pd = keep
    s, k, h = c(x, y)
    queries(t, n, s, dict(curvature=k, heading=h, left_distance=vec("left", n), right_distance=vec("right", n)))


@goal("constant curvature: heading grows linearly")
def constant():
    k, h, w, s = sym("k"), sym("h"), sym("w"), sym("s")
    t = ConstCurvTrack(k, h, w)
    CTX.require_eq("curvature", lift(t.curvature_at(s)), k)
    CTX.require_eq("heading", lift(t.heading_at(s)), h + k * s)
    CTX.require_eq("half width", lift(t.half_width_at(s)), w)


@canary("left and right widths swapped must be refuted")
def wrong_side():
    n = CTX.size("n", 2)
    own = {k: vec(k, n) for k in ("x", "y", "s", "curvature", "heading", "left_distance", "right_distance")}
    t = RaceTrack(**own)
    w = Interp()
    keep, tr.np = tr.np, w
    try:
        r = t.left_distance_at(sym("q"))
    finally:
        tr.np = keep
    CTX.require_eq("left", lift(r), w.interp(sym("q"), column(n, lambda k: E(own["s"], k) - E(own["s"], 0)),
                                             own["right_distance"]))


@canary("curvature positive to the right must be refuted")
def wrong_sign():
    n, x, y = line()
    D, s, k, h = curvilinear(x, y)
    dx, dy = D(x, s), D(y, s)
    ddx, ddy = D(dx, s), D(dy, s)
    i = idx("i", n)
    a, b = E(dx, i), E(dy, i)
    q = a * a + b * b
    CTX.require_eq("curvature", E(k, i), (b * E(ddx, i) - a * E(ddy, i)) / (q * q.sqrt()))

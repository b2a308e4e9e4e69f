"""C11: the casadi array functions give numpy's values (a column vector stands for a 1-D array)."""
import importlib
import types

from contracts.models import *
from lumver import rt
from lumver.terms import _divmod, divide, tob

module = lambda name: importlib.import_module("lumos.numpy.casadi_numpy." + name)
A = module("array")
AR = module("arithmetic")
CA = module("calculus")
CO = module("conditionals")
DT = module("determine_type")
FD = module("finite_difference_operators")
IN = module("interpolate")
LA = module("linalg")
LT = module("linalg_top_level")
LO = module("logicals")
RO = module("rotations")
SP = module("spacing")
TR = module("trig")

assume_note("casadi's matrix type and primitives (vertcat, horzcat, vertsplit, horzsplit, reshape, sum1, sum2, dot, diag, "
            "cross, diff, fmin, fmax, if_else, logic_*, mmax, mmin, norm_fro, linspace, solve, interpolant, elementwise "
            "arithmetic and functions) are taken by the contracts written out in class Mat; the bounded run exercises "
            "the real ones.")
E = lambda t, *k: lift(elem(t, *k))
one = lambda s: CTX.is_zero(lift(s) - 1)


# --------------------------------------------------------------- contracts of casadi
class Mat:
    """A dense casadi matrix: two axes, elementwise arithmetic in which 1-by-1 stands for a number."""
    __array_ufunc__ = None

    def __init__(self, t):
        t = symnp.asT(t)
        if t.ndim == 0:
            t = symnp.reshape(t, (1, 1))
        elif t.ndim == 1:
            t = symnp.expand_dims(t, 1)
        self.t = t

    @property
    def shape(self):
        return self.t.shape

    def numel(self):
        return self.t.size

    def size1(self):
        return self.shape[0]

    def size2(self):
        return self.shape[1]

    @property
    def T(self):
        return type(self)(self.t.T)

    def like(self, t):
        return type(self)(t)

    def bin(self, o, f, kind="real"):
        o = mat(o)
        a, b = self.t, o.t
        sa, sb = [all(one(s) for s in x.shape) for x in (a, b)]
        if not sa and not sb:
            for x, y in zip(a.shape, b.shape):
                if not CTX.is_zero(lift(x) - lift(y)) and not bool(eq(lift(x), lift(y))):
                    raise RuntimeError("casadi: dimension mismatch")
        if sa and not sb:
            v = E(a, 0, 0)
            return self.like(symnp.elementwise(lambda y: f(v, y), [b], kind))
        if sb and not sa:
            v = E(b, 0, 0)
            return self.like(symnp.elementwise(lambda x: f(x, v), [a], kind))
        return self.like(symnp.elementwise(f, [a, b], kind))

    def map(self, f, kind="real"):
        return self.like(symnp.elementwise(f, [self.t], kind))

    __add__ = lambda s, o: s.bin(o, lambda x, y: x + y)
    __radd__ = lambda s, o: s.bin(o, lambda x, y: y + x)
    __sub__ = lambda s, o: s.bin(o, lambda x, y: x - y)
    __rsub__ = lambda s, o: s.bin(o, lambda x, y: y - x)
    __mul__ = lambda s, o: s.bin(o, lambda x, y: x * y)
    __rmul__ = lambda s, o: s.bin(o, lambda x, y: y * x)
    __truediv__ = lambda s, o: s.bin(o, lambda x, y: x / y)
    __rtruediv__ = lambda s, o: s.bin(o, lambda x, y: y / x)
    __pow__ = lambda s, o: s.bin(o, power)
    __rpow__ = lambda s, o: s.bin(o, lambda x, y: power(y, x))
    __neg__ = lambda s: s.map(lambda x: -x)
    __lt__ = lambda s, o: s.bin(o, lambda x, y: iverson(bnot(ge0(x - y))))
    __gt__ = lambda s, o: s.bin(o, lambda x, y: iverson(bnot(ge0(y - x))))
    __le__ = lambda s, o: s.bin(o, lambda x, y: iverson(ge0(y - x)))
    __ge__ = lambda s, o: s.bin(o, lambda x, y: iverson(ge0(x - y)))
    __eq__ = lambda s, o: s.bin(o, lambda x, y: iverson(eq(x, y)))
    __ne__ = lambda s, o: s.bin(o, lambda x, y: iverson(bnot(eq(x, y))))
    __hash__ = None

    def __matmul__(self, o):
        o = mat(o)
        if not CTX.is_zero(lift(self.shape[1]) - o.shape[0]):
            raise RuntimeError("casadi: matrix product of mismatching sizes")
        return self.like(symnp.matmul(self.t, o.t))

    def __rmatmul__(self, o):
        return mat(o) @ self

    def _key(self, key):
        if not isinstance(key, tuple):
            # one index or slice: of the elements in column order
            n, m = self.shape
            if one(m):
                return (key, 0)
            if one(n):
                return (0, key)
            raise Unsupported("casadi matrix indexed by one position")
        return key

    def __getitem__(self, key):
        key = tuple(k if isinstance(k, slice) else self._pos(k, n) for k, n in zip(self._key(key), self.shape))
        return self.like(self.t[key])

    def _pos(self, k, n):
        k = lift(k)
        if k.is_const() and int(k.const()) < 0:
            k = k + n
        ok = band(ge0(k), ge0(lift(n) - 1 - k))
        if not CTX.prove(ok) and not bool(ok):
            raise RuntimeError("casadi: out of bounds")
        return slice(k, k + 1)

    def __setitem__(self, key, v):
        key = tuple(k if isinstance(k, slice) else self._pos(k, n) for k, n in zip(self._key(key), self.shape))
        self.t[key] = mat(v).t

    def __bool__(self):
        raise RuntimeError("casadi: truth value of a symbolic matrix")

    def __iter__(self):
        raise RuntimeError("casadi: matrices are not iterable")

    def __len__(self):
        raise RuntimeError("casadi: matrices have no length")


class SX(Mat):
    @staticmethod
    def filled(shape, f):
        n, m = shape if isinstance(shape, tuple) else (shape, 1)
        return SX(f(n, m))
    zeros = staticmethod(lambda shape: SX.filled(shape, lambda n, m: symnp.zeros((n, m))))
    ones = staticmethod(lambda shape: SX.filled(shape, lambda n, m: symnp.ones((n, m))))
    eye = staticmethod(lambda n: SX(symnp.eye(n)))


class MX(Mat):
    pass


class DM(Mat):
    pass


def mat(x):
    return x if isinstance(x, Mat) else DM(x)


def kind(xs):
    return next((type(x) for k in (SX, MX, DM) for x in xs if isinstance(x, k)), DM)


def power(x, y):
    y = lift(y)
    if y.is_const() and y.const() == 2:
        return lift(x) * lift(x)
    if y.is_const() and y.const() == lift(1).const() / 2:
        return fn("sqrt", x)
    return ufn("pow", x, y)


def cat(axis):
    def f(*xs):
        ms = [mat(x) for x in xs]
        for m in ms[1:]:
            if not CTX.is_zero(lift(m.shape[1 - axis]) - ms[0].shape[1 - axis]):
                if not bool(eq(lift(m.shape[1 - axis]), lift(ms[0].shape[1 - axis]))):
                    raise RuntimeError("casadi: concatenation of mismatching sizes")
        if not ms:
            return DM(symnp.zeros((0, 0)))
        return kind(ms)(symnp.concatenate([m.t for m in ms], axis=axis))
    return f


def splitter(axis):
    def f(x, spec):
        n = lift(x.shape[axis])
        cut = lambda a, b: x[a:b, :] if axis == 0 else x[:, a:b]
        if isinstance(spec, (int, P)):
            step = lift(spec)
            k, r = divide(n, step)
            if k is None or r.d or not k.is_const():
                raise Unsupported("casadi split into a number of pieces that is not known")
            return [cut(step * j, step * (j + 1)) for j in range(int(k.const()))]
        at = [lift(k) for k in spec]
        CTX.require("split: offsets from 0 to the size, not decreasing", CTX.prove(band(
            eq(at[0], const(0)), eq(at[-1], n), *[ge0(b - a) for a, b in zip(at, at[1:])])))
        return [cut(a, b) for a, b in zip(at, at[1:])]
    return f


def cas_reshape(x, shape):
    n, m = [lift(k) for k in shape]
    tot = lift(x.numel())
    hole = lambda k: k.is_const() and k.const() == -1
    if hole(n):
        n = tot / m
    elif hole(m):
        m = tot / n
    if not CTX.is_zero(n * m - tot):
        raise RuntimeError("casadi: reshape to another number of elements")
    return type(x)(symnp.reshape(symnp.reshape(x.t.T, (tot,)), (m, n)).T)       # by columns


def cas_sum(axis):
    def f(x):
        x = mat(x)
        t = symnp.sum(x.t, axis=axis)
        return x.like(symnp.expand_dims(t, axis))
    return f


def cas_dot(x, y):
    x, y = mat(x), mat(y)
    for a, b in zip(x.shape, y.shape):
        if not CTX.is_zero(lift(a) - b):
            raise RuntimeError("casadi: dot of mismatching sizes")
    n, m = x.shape
    return kind([x, y])(symnp.asT(ssum(n, m, lambda i, j: E(x.t, i, j) * E(y.t, i, j))))


def cas_diag(v):
    n, m = v.shape
    if one(m):
        return v.like(T([Atm(n), Atm(n)], lambda i, j: E(v.t, i, 0) * iverson(eq(lift(i), lift(j)))))
    if one(n):
        return v.like(T([Atm(m), Atm(m)], lambda i, j: E(v.t, 0, i) * iverson(eq(lift(i), lift(j)))))
    raise Unsupported("casadi diag of a matrix")


def cas_cross(a, b):
    a, b = mat(a), mat(b)
    three = [CTX.is_zero(lift(k) - 3) for k in a.shape]
    if not any(three):
        raise RuntimeError("casadi: cross of vectors of another size than 3")
    ax = 0 if three[0] else 1
    for x, y in zip(a.shape, b.shape):
        if not CTX.is_zero(lift(x) - y):
            raise RuntimeError("casadi: cross of mismatching sizes")
    x, y = (a.t, b.t) if ax == 0 else (a.t.T, b.t.T)

    def el(i, j):
        i = lift(i)
        tot = const(0)
        for k in range(3):
            p, q = (k + 1) % 3, (k + 2) % 3
            tot = tot + iverson(eq(i, const(k))) * (E(x, p, j) * E(y, q, j) - E(x, q, j) * E(y, p, j))
        return tot
    r = T([Atm(3), Atm(lift(x.shape[1]))], el)
    return kind([a, b])(r if ax == 0 else r.T)


def cas_diff(x, n, axis):
    assert n == 1
    return x[1:, :] - x[:-1, :] if axis == 0 else x[:, 1:] - x[:, :-1]


LOG = []        # calls of the opaque primitives


def opaque(name):
    def f(x):
        x = mat(x)
        n, m = x.shape
        if one(n) and one(m):
            return x
        LOG.append((name, x))
        return x.like(symnp.asT(ufn(name + str(len(LOG)))))
    return f


def cas_solve(a, b):
    LOG.append(("solve", (a, b)))
    return kind([a, b])(arr("solution", *mat(b).shape))


def if_else(c, a, b):
    c, a, b = mat(c), mat(a), mat(b)
    pick = lambda k, x, y: k * x + (1 - k) * y
    big = next((m for m in (c, a, b) if not all(one(s) for s in m.shape)), a)
    full = [m if m.shape == big.shape else m + big * 0 for m in (c, a, b)]
    return kind([a, b, c])(symnp.elementwise(pick, [m.t for m in full], "real"))


truth = lambda x: iverson(bnot(eq(lift(x), const(0))))


def interpolant(name, how, grid, values):
    CTX.require("interpolant: linear, one grid", how == "linear" and len(grid) == 1)
    LOG.append(("interpolant", (grid[0], values)))
    return lambda x: mat(x).map(lambda v: ufn("lut", v))


def cas_linspace(a, b, n):
    a, b = mat(a), mat(b)
    u, v = E(a.t, 0, 0), E(b.t, 0, 0)
    return kind([a, b])(T([Atm(lift(n))], lambda i: u + (v - u) * lift(i) / (lift(n) - 1)))


cas = types.SimpleNamespace(
    SX=SX, MX=MX, DM=DM, vertcat=cat(0), horzcat=cat(1), transpose=lambda x: mat(x).T, vertsplit=splitter(0),
    horzsplit=splitter(1), reshape=cas_reshape, sum1=cas_sum(0), sum2=cas_sum(1), dot=cas_dot, diag=cas_diag,
    cross=cas_cross, diff=cas_diff, mmax=opaque("mmax"), mmin=opaque("mmin"), solve=cas_solve,
    fabs=lambda x: mat(x).map(lambda v: fn("abs", v)), if_else=if_else, linspace=cas_linspace, interpolant=interpolant,
    norm_fro=lambda x: x.like(symnp.asT(fn("sqrt", ssum(*x.shape, lambda i, j: E(x.t, i, j) ** 2)))),
    fmin=lambda x, y: mat(x).bin(y, lambda a, b: ufn("min", a, b)),
    fmax=lambda x, y: mat(x).bin(y, lambda a, b: ufn("max", a, b)),
    logic_and=lambda x, y: mat(x).bin(y, lambda a, b: truth(a) * truth(b)),
    logic_or=lambda x, y: mat(x).bin(y, lambda a, b: truth(a) + truth(b) - truth(a) * truth(b)),
    logic_not=lambda x: mat(x).map(lambda a: 1 - truth(a)),
    logic_all=opaque("all"), logic_any=opaque("any"))


class Numpy:
    """numpy, which leaves elementwise functions of casadi matrices to casadi."""

    def __init__(self, real):
        self.real = real

    def __getattr__(self, name):
        f = getattr(self.real, name)
        if name not in ("sin", "cos", "tan", "arcsin", "arccos", "arctan2", "fmin", "fmax", "log10", "max", "min"):
            return f

        def g(*a):
            if not any(isinstance(x, Mat) for x in a):
                return f(*a)
            if name in ("max", "min"):
                raise TypeError(name)
            if name in ("fmin", "fmax"):
                return getattr(cas, name)(*a)
            if len(a) == 2:
                return mat(a[0]).bin(a[1], lambda x, y: ufn(name, x, y))
            return a[0].map(lambda x: fn(name, x))
        return g


for _m in (A, AR, CA, CO, LA, LT, LO, RO, SP, TR, FD):
    for _n in ("_cas", "cas"):
        if hasattr(_m, _n):
            setattr(_m, _n, cas)
    if hasattr(_m, "_onp"):
        _m._onp = Numpy(_m._onp)
DT.cas = IN.cas = cas
KINDS = (SX, MX, DM)


# ------------------------------------------------------------------------ helpers
def K():
    return KINDS[CTX.choose(3)]


def V(tag, n, k=SX):
    """A vector, as casadi holds it."""
    return k(vec(tag, n))


def M(tag, n, m, k=SX):
    return k(arr(tag, n, m))


def is_vec(what, x, n, f):
    """x is the 1-D array f (a column, or a single row)."""
    if not isinstance(x, Mat):
        return CTX.fail(what, f"not a casadi matrix: {type(x)}")
    r, c = x.shape
    if one(c):
        if CTX.require_eq(what + ": size", lift(r), lift(n)):
            i = idx("vi", n)
            CTX.require_eq(what, E(x.t, i, 0), f(i))
    elif one(r):
        if CTX.require_eq(what + ": size", lift(c), lift(n)):
            i = idx("vi", n)
            CTX.require_eq(what, E(x.t, 0, i), f(i))
    else:
        CTX.fail(what + ": a vector", f"shape {x.shape}")


def is_mat(what, x, n, m, f):
    if not isinstance(x, Mat):
        return CTX.fail(what, f"not a casadi matrix: {type(x)}")
    if shape_is(what, x.t, n, m):
        i, j = idx("mi", n), idx("mj", m)
        CTX.require_eq(what, E(x.t, i, j), f(i, j))


def is_num(what, x, v):
    if not isinstance(x, Mat):
        return CTX.require_eq(what, lift(x), v)
    if shape_is(what, x.t, const(1), const(1)):
        CTX.require_eq(what, E(x.t, 0, 0), v)


def dims(*lo):
    return [CTX.size(f"n{k}", v) for k, v in enumerate(lo)]


rv = lambda tag: (lambda i: read(tag, [i]))
rm = lambda tag: (lambda i, j: read(tag, [i, j]))


# -------------------------------------------------------------------------- goals
@goal("which values are casadi's: matrices of every kind, and lists holding one at any place")
def types_():
    k = K()
    n, = dims(1)
    CTX.require("matrix", DT.is_casadi_type(V("a", n, k)) is True and DT.is_casadi_type(V("a", n, k), recursive=False))
    x = V("a", n, k)
    CTX.require("nested", DT.is_casadi_type([1.0, (2.0, [x])]) is True and DT.is_casadi_type((x, 1.0)) is True
                and DT.is_casadi_type([1.0, x]) is True)
    CTX.require("not asked to look inside", DT.is_casadi_type([x], recursive=False) is False)
    CTX.require("others", not DT.is_casadi_type([1.0, (2.0, vec("b", n))]) and not DT.is_casadi_type(vec("b", n))
                and not DT.is_casadi_type(3.0))
    CTX.require("matrices", DT.is_matrix(x) is False and DT.is_matrix(M("m", n + 1, n + 1)) is True
                and DT.is_matrix(3.0) is False and DT.is_matrix(vec("b", n)) is False and DT.is_matrix(x.T) is False)


@goal("numeric arguments give numpy's result", timeout=300)
def numeric():
    n, m = dims(2, 2)
    a, b, c = arr("a", n, m), arr("b", n, m), vec("c", n)
    i, j = idx("i", n), idx("j", m)
    CTX.require_eq("sum", lift(AR.sum(a)), ssum(n, m, lambda i, j: read("a", [i, j])))
    CTX.require_eq("sum over rows", E(AR.sum(a, axis=0), j), ssum(n, lambda i: read("a", [i, j])))
    CTX.require_eq("sum over columns", E(AR.sum(a, axis=1), i), ssum(m, lambda j: read("a", [i, j])))
    CTX.require_eq("mean", lift(AR.mean(c)), ssum(n, lambda i: read("c", [i])) / n)
    CTX.require_eq("abs", E(AR.abs(c), i), fn("abs", read("c", [i])))
    r = A.concatenate((a, b), axis=1)
    shape_is("concatenate", r, n, m + m)
    CTX.require_eq("concatenate", E(r, i, m + j), read("b", [i, j]))
    r = A.stack((c, c), axis=1)
    shape_is("stack", r, n, const(2))
    CTX.require_eq("stack", E(r, i, 1), read("c", [i]))
    CTX.require_eq("dot", E(LT.dot(a, symnp.transpose(b)), i, i), ssum(m, lambda k: read("a", [i, k]) * read("b", [i, k])))
    CTX.require_eq("outer", E(LA.outer(c, c), i, i), read("c", [i]) ** 2)
    CTX.require_eq("inner", lift(LA.inner(c, c)), ssum(n, lambda k: read("c", [k]) ** 2))
    CTX.require_eq("roll", E(A.roll(c, 1), i), read("c", [i - 1]) if bool(ge0(i - 1)) else read("c", [n - 1]))
    CTX.require_eq("reshape", E(A.reshape(c, (n, 1)), i, 0), read("c", [i]))
    d = CA.diff(c)
    shape_is("diff", d, n - 1)
    k = idx("k", n - 1)
    CTX.require_eq("diff", E(d, k), read("c", [k + 1]) - read("c", [k]))
    CTX.require_eq("length", lift(A.length(c)), n)
    CTX.require("length of a number", A.length(3.0) == 1)


@goal("array: of numbers, of rows of numbers, of vectors, of what is an array already")
def array():
    k = K()
    n, = dims(2)
    x, y, z = [k(symnp.asT(sym(s))) for s in "xyz"]
    f = lambda s: E(s.t, 0, 0) if isinstance(s, Mat) else lift(s)
    row = [x, 1.5, y]
    c = CTX.choose(4)
    if c == 0:
        is_vec("numbers", A.array(row), 3, lambda i: f(row[int(i.const())]))
    elif c == 1:
        cell = ([[x, 2.0], [y, z]], [[1.0, 2.0, x], [z, y, 3.0], [x, x, x]], ((x, y),))[CTX.choose(3)]
        is_mat("rows", A.array(cell), len(cell), len(cell[0]), lambda i, j: f(cell[int(i.const())][int(j.const())]))
    elif c == 2:
        vs = ["a", "b", "c"][:1 + CTX.choose(3)]
        is_mat("vectors", A.array([V(v, n, k) for v in vs]), len(vs), n, lambda i, j: read(vs[int(i.const())], [j]))
    else:
        w = V("w", n, k)
        CTX.require("an array", A.array(w) is w)


def some(n=3):
    return [f"a{i}" for i in range(1 + CTX.choose(n))]


def mixed(make, names_, k):
    """Some of the arrays plain numpy, not all."""
    out = []
    for q, v in enumerate(names_):
        out.append(make(v) if q and CTX.choose(2) else k(make(v)))
    return out


def pieces(names_, sizes, i, f):
    """The value at position i of consecutive pieces."""
    for v, s in zip(names_, sizes):
        if bool(ge0(s - 1 - i)):
            return f(v, i)
        i = i - s
    return None


@goal("concatenate, hstack, vstack: joined along the axis, in order, with numpy arrays among them", timeout=300)
def concatenate():
    k = K()
    vs = some()
    ns = [CTX.size(f"s{i}", 1) for i in range(len(vs))]
    m, = dims(2)
    tot = sum(ns, const(0))
    c = CTX.choose(4)
    size = dict(zip(vs, ns))
    if c == 0:
        xs = mixed(lambda v: vec(v, size[v]), vs, k)
        is_vec("vectors", A.concatenate(xs), tot, lambda i: pieces(vs, ns, i, lambda v, i: read(v, [i])))
    elif c == 1:
        xs = mixed(lambda v: arr(v, size[v], m), vs, k)
        f = [lambda: A.concatenate(tuple(xs)), lambda: A.concatenate(xs, axis=0), lambda: A.vstack(xs)][CTX.choose(3)]
        is_mat("rows", f(), tot, m, lambda i, j: pieces(vs, ns, i, lambda v, i: read(v, [i, j])))
    elif c == 2:
        xs = mixed(lambda v: arr(v, m, size[v]), vs, k)
        f = [lambda: A.concatenate(xs, axis=1), lambda: A.hstack(xs)][CTX.choose(2)]
        is_mat("columns", f(), m, tot, lambda i, j: pieces(vs, ns, j, lambda v, j: read(v, [i, j])))
    else:
        must_raise("another axis is refused", ValueError, A.concatenate, [V("a", m), V("b", m)], axis=2)


@goal("stack, column_stack, row_stack: one array per row or column, in order; matrices are refused", timeout=300)
def stack():
    k = K()
    vs = some()
    n, = dims(2)
    c = CTX.choose(4)
    name_ = lambda i: vs[int(lift(i).const())]
    xs = mixed(lambda v: vec(v, n), vs, k) if c < 2 else [V(v, n, k) for v in vs]
    rows = lambda what, r: is_mat(what, r, len(vs), n, lambda i, j: read(name_(i), [j]))
    cols = lambda what, r: is_mat(what, r, n, len(vs), lambda i, j: read(name_(j), [i]))
    if c == 0:
        rows("rows", [lambda: A.stack(xs), lambda: A.stack(tuple(xs), axis=0), lambda: A.stack(xs, axis=-2)][CTX.choose(3)]())
    elif c == 1:
        cols("columns", A.stack(xs, axis=[1, -1][CTX.choose(2)]))
    elif c == 2:
        if CTX.choose(2):
            cols("column_stack", A.column_stack(xs))
        else:
            rows("row_stack", A.row_stack(xs))
    else:
        m = CTX.size("m", 2)
        must_raise("another axis", ValueError, A.stack, xs, axis=2)
        for f in (A.stack, A.column_stack, A.row_stack):
            must_raise("matrices", ValueError, f, [M("q", n, m, k)])
            must_raise("a matrix among vectors", ValueError, f, [V("a", n, k), M("q", n, m, k)])
        must_raise("a numpy matrix among vectors", ValueError, A.stack, [V("a", n, k), arr("q", n, m)])


@goal("split, hsplit, vsplit: numpy's parts, at positions or into equal parts; uneven splits are refused", timeout=300)
def split():
    k = K()
    c = CTX.choose(3)
    q = CTX.choose(4) + 1
    n, m = dims(1, 2)
    if c:
        h, rest = CTX.size("h", 0 if c == 2 else 1), CTX.choose(q - 1) + 1 if c == 2 and q > 1 else 0
        n = h * q + rest
    axis = CTX.choose(2)
    x = M("x", n, m, k) if axis == 0 else M("x", m, n, k)
    at = lambda i, j: read("x", [i, j] if axis == 0 else [j, i])

    def parts(r, cuts):
        CTX.require("number of parts", len(r) == len(cuts) - 1)
        q = CTX.choose(len(r))
        a, b = cuts[q], cuts[q + 1]
        g = (lambda i, j: at(a + i, j)) if axis == 0 else (lambda i, j: at(a + j, i))
        is_mat("part", r[q], *((b - a, m) if axis == 0 else (m, b - a)), g)

    f = {0: [lambda s: A.split(x, s, axis=0), lambda s: A.vsplit(x, s)],
         1: [lambda s: A.split(x, s, axis=1), lambda s: A.hsplit(x, s), lambda s: A.split(x, s, axis=-1)]}[axis]
    f = f[CTX.choose(len(f))]
    if c == 0:
        cuts = []
        for p in range(q - 1):
            e = CTX.index(f"cut{p}", n + 1)
            if cuts:
                CTX.assume(ge0(e - cuts[-1]))
            cuts.append(e)
        parts(f([list, tuple][CTX.choose(2)](cuts)), [const(0)] + cuts + [n])
    elif c == 1:
        r = f(q)
        CTX.require("number of parts", len(r) == q)
        if len(r) == q:
            parts(r, [h * j for j in range(q + 1)])
    elif q > 1:
        must_raise("uneven", ValueError, f, q)


@goal("diag, length, zeros, ones, eye")
def small():
    k = K()
    n, m = dims(2, 2)
    d = lambda i, j: read("v", [i]) * iverson(eq(i, j))
    is_mat("diag", A.diag(V("v", n, k)), n, n, d)
    is_mat("diag of a row", A.diag(V("v", n, k).T), n, n, d)
    must_raise("diag of a matrix", ValueError, A.diag, M("a", n, n + m, k))
    must_raise("other diagonals", NotImplementedError, A.diag, V("v", n, k), k=1)
    CTX.require_eq("length", lift(A.length(V("v", n, k))), n)
    CTX.require_eq("length of a row", lift(A.length(V("v", n, k).T)), n)
    CTX.require_eq("length of a matrix", lift(A.length(M("a", n, m, k))), n)
    is_mat("zeros", A.zeros((n, m)), n, m, lambda i, j: const(0))
    is_vec("zeros", A.zeros(n), n, lambda i: const(0))
    is_mat("ones", A.ones((n, m)), n, m, lambda i, j: const(1))
    is_mat("zeros_like", A.zeros_like(M("a", n, m, k)), n, m, lambda i, j: const(0))
    is_mat("eye", A.eye(n), n, n, lambda i, j: iverson(eq(i, j)))


@goal("roll: any shift, along an axis, of a vector, of a matrix as one sequence", timeout=300)
def roll():
    k = K()
    n, m = dims(2, 2)
    s = sym("shift", "int")
    c = CTX.choose(5)

    def back(i, size):
        """(i - s) mod size"""
        p = i + _divmod(-s, lift(size))[1]
        return p if bool(ge0(size - 1 - p)) else p - size
    if c == 0:
        is_vec("vector", A.roll(V("v", n, k), s), n, lambda i: read("v", [back(i, n)]))
    elif c == 1:
        is_mat("axis 0", A.roll(M("a", n, m, k), s, axis=0), n, m, lambda i, j: read("a", [back(i, n), j]))
    elif c == 2:
        is_mat("axis 1", A.roll(M("a", n, m, k), s, axis=1), n, m, lambda i, j: read("a", [i, back(j, m)]))
    elif c == 3:
        s = sym("turns", "int") * n * m - (idx("sr", n) * m + idx("sc", m))      # any shift
        r = A.roll(M("a", n, m, k), s)
        shape_is("as one sequence", r.t, n, m)
        i, j = idx("i", n), idx("j", m)
        CTX.require_eq("as one sequence", E(r.t, i, j), read("a", list(_divmod(back(i * m + j, n * m), m))))
    else:
        must_raise("another axis", Exception, A.roll, M("a", n, m, k), s, axis=2)


@goal("reshape: the elements in row order", timeout=300)
def reshape():
    k = K()
    n, m = dims(2, 2)
    c = CTX.choose(4)
    if c == 0:
        is_mat("vector to matrix", A.reshape(V("v", n * m, k), [(n, m), (n, -1), (-1, m)][CTX.choose(3)]), n, m,
               lambda i, j: read("v", [i * m + j]))
    elif c == 1:
        r = A.reshape(M("a", n, m, k), (n * m, 1))
        shape_is("matrix to vector", r.t, n * m, const(1))
        i, j = idx("i", n), idx("j", m)
        CTX.require_eq("matrix to vector", E(r.t, i * m + j, 0), read("a", [i, j]))
    elif c == 2:
        r = A.reshape(M("a", n, m, k), (m, n))
        shape_is("transposed shape", r.t, m, n)
        p, q = idx("p", m), idx("q", n)
        i, j = _divmod(p * n + q, m)
        CTX.require_eq("transposed shape", E(r.t, p, q), read("a", [i, j]))
    else:
        h = CTX.size("h", 1)
        r = A.reshape(M("a", n * h, m, k), (n, h * m))
        shape_is("rows joined", r.t, n, h * m)
        i, l, j = idx("i", n), idx("l", h), idx("j", m)
        CTX.require_eq("rows joined", E(r.t, i, l * m + j), read("a", [i * h + l, j]))


@goal("sum, mean, abs, max, min", timeout=300)
def reductions():
    k = K()
    n, m = dims(2, 2)
    v, a = V("v", n, k), M("a", n, m, k)
    sv = ssum(n, lambda i: read("v", [i]))
    sa = ssum(n, m, lambda i, j: read("a", [i, j]))
    col = lambda j: ssum(n, lambda i: read("a", [i, j]))
    row = lambda i: ssum(m, lambda j: read("a", [i, j]))
    is_num("sum of a vector", AR.sum(v), sv)
    is_num("sum of a vector along its axis", AR.sum(v, axis=0), sv)
    is_num("sum", AR.sum(a), sa)
    is_vec("sum over rows", AR.sum(a, axis=0), m, col)
    is_vec("sum over columns", AR.sum(a, axis=1), n, row)
    is_num("mean of a vector", AR.mean(v), sv / n)
    is_num("mean of a vector along its axis", AR.mean(v, axis=0), sv / n)
    is_num("mean", AR.mean(a), sa / (n * m))
    is_vec("mean over rows", AR.mean(a, axis=0), m, lambda j: col(j) / n)
    is_vec("mean over columns", AR.mean(a, axis=1), n, lambda i: row(i) / m)
    is_mat("abs", AR.abs(a), n, m, lambda i, j: fn("abs", read("a", [i, j])))
    for f in (AR.sum, AR.mean):
        must_raise("another axis", ValueError, f, a, axis=2)
    for f, p in ((A.max, "mmax"), (A.min, "mmin")):
        LOG.clear()
        r = f(a)
        CTX.require(p, len(LOG) == 1 and LOG[0][0] == p and LOG[0][1] is a and isinstance(r, Mat))


@goal("diff: differences of neighbours along the last axis, any number of times; trapz", timeout=300)
def diff():
    k = K()
    order = 1 + CTX.choose(3)
    n, m = dims(2, 2)
    w = {1: (-1, 1), 2: (1, -2, 1), 3: (-1, 3, -3, 1)}[order]
    c = CTX.choose(3)
    if c == 0:
        is_vec("vector", CA.diff(V("v", n + order, k), n=order), n,
               lambda i: sum((q * read("v", [i + p]) for p, q in enumerate(w)), const(0)))
    elif c == 1:
        is_mat("matrix", CA.diff(M("a", m, n + order, k), n=order), m, n,
               lambda i, j: sum((q * read("a", [i, j + p]) for p, q in enumerate(w)), const(0)))
    elif order == 1:
        must_raise("another axis", NotImplementedError, CA.diff, M("a", m, n, k), axis=0)
        mid = lambda i: (read("v", [i]) + read("v", [i + 1])) / 2
        is_vec("trapz", CA.trapz(V("v", n, k)), n - 1, mid)

        def ends(i):
            r = mid(i)
            if bool(eq(i, const(0))):
                r = r + read("v", [const(0)]) / 2
            if bool(eq(i, n - 2)):
                r = r + read("v", [n - 1]) / 2
            return r
        is_vec("trapz with end points", CA.trapz(V("v", n, k), modify_endpoints=True), n - 1, ends)


@goal("where, minimum, maximum, clip and the logical functions, elementwise", timeout=300)
def elementwise():
    k = K()
    n, m = dims(2, 2)
    sh = CTX.choose(2)
    mk = lambda t: M(t, n, m, k) if sh else V(t, n, k)
    r_ = lambda t: (lambda *i: read(t, list(i)))
    chk = lambda what, r, f: is_mat(what, r, n, m, f) if sh else is_vec(what, r, n, f)
    a, b, c = r_("a"), r_("b"), r_("c")
    t_ = lambda f: (lambda *i: truth(f(*i)))
    cond = mk("c") > 0
    pos = lambda *i: iverson(bnot(ge0(-c(*i))))
    chk("where", CO.where(cond, mk("a"), mk("b")), lambda *i: pos(*i) * a(*i) + (1 - pos(*i)) * b(*i))
    chk("where, a number", CO.where(cond, mk("a"), 3.0), lambda *i: pos(*i) * a(*i) + (1 - pos(*i)) * 3)
    chk("where, two numbers", CO.where(cond, 1.0, 3.0), lambda *i: pos(*i) + (1 - pos(*i)) * 3)
    num = arr("b", n, m) if sh else vec("b", n)
    for nm, op in (("minimum", "min"), ("maximum", "max")):
        f = getattr(LO, nm)
        chk(nm, f(mk("a"), mk("b")), lambda *i: ufn(op, a(*i), b(*i)))
        chk(nm + " with a number", f(mk("a"), 2.0), lambda *i: ufn(op, a(*i), const(2)))
        chk(nm + " with a numpy array", f(mk("a"), num), lambda *i: ufn(op, a(*i), b(*i)))
    lo, hi = sym("lo"), sym("hi")
    chk("clip", LO.clip(mk("a"), lo, hi), lambda *i: ufn("min", ufn("max", a(*i), lo), hi))
    chk("logical_and", LO.logical_and(mk("a"), mk("b")), lambda *i: truth(a(*i)) * truth(b(*i)))
    chk("logical_or", LO.logical_or(mk("a"), mk("b")),
        lambda *i: truth(a(*i)) + truth(b(*i)) - truth(a(*i)) * truth(b(*i)))
    chk("logical_not", LO.logical_not(mk("a")), lambda *i: 1 - truth(a(*i)))
    for nm in ("all", "any"):
        LOG.clear()
        getattr(LO, nm)(mk("a"))
        CTX.require(nm, len(LOG) == 1 and LOG[0][0] == nm)
        chk(nm + ": of what", LOG[0][1], t_(a))


@goal("dot, inner, outer, matrix products, solve", timeout=300)
def products():
    k = K()
    n, m = dims(2, 2)
    h = CTX.size("h", 2)
    v, w = V("v", n, k), V("w", n, k)
    nw = vec("w", n)
    vw = ssum(n, lambda i: read("v", [i]) * read("w", [i]))
    for f in (LT.dot, LA.inner):
        is_num("of vectors", f(v, w), vw)
        is_num("of a vector and a numpy vector", f(v, nw), vw)
        is_num("of a numpy vector and a vector", f(nw, v), vw)
    is_mat("outer", LA.outer(v, V("u", m, k)), n, m, lambda i, j: read("v", [i]) * read("u", [j]))
    is_mat("outer with numpy", LA.outer(v, vec("u", m)), n, m, lambda i, j: read("v", [i]) * read("u", [j]))
    is_mat("matrix dot", LT.dot(M("a", n, m, k), M("b", m, h, k)), n, h,
           lambda i, j: ssum(m, lambda q: read("a", [i, q]) * read("b", [q, j])))
    is_mat("matrix inner", LA.inner(M("a", n, m, k), M("c", h, m, k)), n, h,
           lambda i, j: ssum(m, lambda q: read("a", [i, q]) * read("c", [j, q])))
    LOG.clear()
    x, y = M("a", n, n, k), V("v", n, k)
    r = LA.solve(x, y)
    CTX.require("solve", len(LOG) == 1 and LOG[0][1][0] is x and LOG[0][1][1] is y)
    is_vec("solution", r, n, lambda i: read("solution", [i, const(0)]))


@goal("norms of vectors and matrices", timeout=300)
def norms():
    import numpy as np
    k = K()
    n, m = dims(2, 2)
    c = CTX.choose(4)
    ab = lambda x: fn("abs", x)
    p = sym("p")
    for e in (0, 1, 2):
        CTX.assume(bnot(eq(p, const(e))))
    if c in (0, 1):
        x = V("v", n, k) if c == 0 else V("v", n, k).T
        v = rv("v")
        two = fn("sqrt", ssum(n, lambda i: v(i) ** 2))
        is_num("default", LA.norm(x), two)
        is_num("2", LA.norm(x, ord=2), two)
        is_num("1", LA.norm(x, ord=1), ssum(n, lambda i: ab(v(i))))
        is_num("3", LA.norm(x, ord=3), ufn("pow", ssum(n, lambda i: ufn("pow", ab(v(i)), const(3))), lift(1) / 3))
        LOG.clear()
        LA.norm(x, ord=np.inf)
        CTX.require("infinity", len(LOG) == 1 and LOG[0][0] == "mmax")
        is_vec("infinity: of what", LOG[0][1], n, lambda i: ab(v(i)))
        if c == 0:
            is_num("axis 0", LA.norm(x, axis=0), two)
        for o in (0, -np.inf):
            must_raise("other orders", ValueError, LA.norm, x, ord=o)
    elif c == 2:
        a, x = rm("a"), M("a", n, m, k)
        is_vec("rows", LA.norm(x, axis=0), m, lambda j: fn("sqrt", ssum(n, lambda i: a(i, j) ** 2)))
        is_vec("columns", LA.norm(x, axis=1), n, lambda i: fn("sqrt", ssum(m, lambda j: a(i, j) ** 2)))
        is_vec("1, rows", LA.norm(x, ord=1, axis=0), m, lambda j: ssum(n, lambda i: ab(a(i, j))))
        is_vec("1, columns", LA.norm(x, ord=1, axis=1), n, lambda i: ssum(m, lambda j: ab(a(i, j))))
        must_raise("another axis", ValueError, LA.norm, x, axis=2)
        for o in (0, np.inf, -np.inf):
            for ax in (0, 1, -1):
                must_raise("other orders along an axis", ValueError, LA.norm, x, ord=o, axis=ax)
    else:
        a, x = rm("a"), M("a", n, m, k)
        fro = fn("sqrt", ssum(n, m, lambda i, j: a(i, j) ** 2))
        is_num("Frobenius", LA.norm(x), fro)
        is_num("Frobenius by name", LA.norm(x, ord="fro"), fro)
        for o, size, f in ((1, m, lambda j: ssum(n, lambda i: ab(a(i, j)))),
                           (np.inf, n, lambda i: ssum(m, lambda j: ab(a(i, j))))):
            LOG.clear()
            LA.norm(x, ord=o)
            CTX.require("induced norm", len(LOG) == 1 and LOG[0][0] == "mmax")
            is_vec("induced norm: of what", LOG[0][1], size, f)
        for o in (2, 0, 3):
            must_raise("other matrix norms", ValueError, LA.norm, x, ord=o)


@goal("cross: of vectors and along every axis", timeout=300)
def cross():
    k = K()
    n, = dims(4)
    term = lambda x, y, q: x((q + 1) % 3) * y((q + 2) % 3) - x((q + 2) % 3) * y((q + 1) % 3)
    c = CTX.choose(4)
    q3 = lambda i: int(lift(i).const())
    if c == 0:
        a, b = V("a", 3, k), V("b", 3, k)
        g = lambda i: term(rv("a"), rv("b"), q3(i))
        is_vec("vectors", LT.cross(a, b), 3, g)
        is_vec("a vector and a numpy vector", LT.cross(a, vec("b", 3)), 3, g)
        is_vec("a numpy vector and a vector", LT.cross(vec("a", 3), b), 3, g)
    elif c == 1:
        ax = [None, -1, 1][CTX.choose(3)]
        is_mat("rows", LT.cross(M("a", n, 3, k), M("b", n, 3, k), axis=ax), n, 3,
               lambda i, j: term(lambda q: read("a", [i, q]), lambda q: read("b", [i, q]), q3(j)))
    elif c == 2:
        is_mat("columns", LT.cross(M("a", 3, n, k), M("b", 3, n, k), axis=0), 3, n,
               lambda i, j: term(lambda q: read("a", [q, j]), lambda q: read("b", [q, j]), q3(i)))
    else:
        A_ = lambda i: (lambda q: read("a", [q, i]))
        is_mat("axisa", LT.cross(M("a", 3, n, k), M("b", n, 3, k), axisa=0), n, 3,
               lambda i, j: term(lambda q: read("a", [q, i]), lambda q: read("b", [i, q]), q3(j)))
        is_mat("axisb", LT.cross(M("a", n, 3, k), M("b", 3, n, k), axisb=0), n, 3,
               lambda i, j: term(lambda q: read("a", [i, q]), lambda q: read("b", [q, i]), q3(j)))
        is_mat("axisc", LT.cross(M("a", n, 3, k), M("b", n, 3, k), axisc=0), 3, n,
               lambda i, j: term(lambda q: read("a", [j, q]), lambda q: read("b", [j, q]), q3(i)))
        for kw in ("axis", "axisa", "axisb", "axisc"):
            must_raise("another axis", ValueError, LT.cross, M("a", n, 3, k), M("b", n, 3, k), **{kw: 2})


@goal("rotation matrices", timeout=300)
def rotations():
    k = K()
    t = sym("t")
    x = k(symnp.asT(t))
    s, c = fn("sin", t), fn("cos", t)
    q3 = lambda i: int(lift(i).const())
    is_mat("plane", RO.rotation_matrix_2D(x), 2, 2, lambda i, j: [[c, -s], [s, c]][q3(i)][q3(j)])
    a = [read("a", [const(i)]) for i in range(3)]
    given = CTX.choose(2)
    if not given:
        r = fn("sqrt", a[0] * a[0] + a[1] * a[1] + a[2] * a[2])
        CTX.assume(bnot(eq(r, const(0))))
        a = [e / r for e in a]
    K_ = [[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]]
    is_mat("axis", RO.rotation_matrix_3D(x, V("a", 3, k), _axis_already_normalized=bool(given)), 3, 3, lambda i, j: (
        c * iverson(eq(i, j)) + s * K_[q3(i)][q3(j)] + (1 - c) * a[q3(i)] * a[q3(j)]))


@goal("linspace, logspace", timeout=300)
def spacing():
    k = K()
    u, v = sym("u"), sym("v")
    a, b = k(symnp.asT(u)), k(symnp.asT(v))
    n, = dims(2)
    line = lambda x, y, i: x + (y - x) * i / (n - 1)
    is_vec("linspace", SP.linspace(a, b, n), n, lambda i: line(u, v, i))
    is_vec("linspace, a number", SP.linspace(1.0, b, n), n, lambda i: line(const(1), v, i))
    is_vec("logspace", SP.logspace(a, b, n), n, lambda i: ufn("pow", const(10), line(u, v, i)))


@goal("functions of degrees")
def degrees():
    k = K()
    n, = dims(1)
    pi = lift(np.pi)
    x, f = V("v", n, k), rv("v")
    rad = lambda e: e * pi / 180
    deg = lambda e: e * 180 / pi
    is_vec("degrees", TR.degrees(x), n, lambda i: deg(f(i)))
    is_vec("radians", TR.radians(x), n, lambda i: rad(f(i)))
    for g, nm in ((TR.sind, "sin"), (TR.cosd, "cos"), (TR.tand, "tan")):
        is_vec(nm, g(x), n, lambda i: fn(nm, rad(f(i))))
    for g, nm in ((TR.arcsind, "arcsin"), (TR.arccosd, "arccos")):
        is_vec(nm, g(x), n, lambda i: deg(fn(nm, f(i))))
    is_vec("arctan2", TR.arctan2d(x, V("w", n, k)), n, lambda i: deg(ufn("arctan2", f(i), read("w", [i]))))


@goal("interp: linear between the points, the given or the end values outside")
def interp():
    k = K()
    n, = dims(2)
    x = sym("x")
    xp, fp = vec("xp", n), vec("fp", n)
    kw = {}
    if CTX.choose(2):
        kw["left"] = sym("left")
    if CTX.choose(2):
        kw["right"] = sym("right")
    LOG.clear()
    r = IN.interp(k(symnp.asT(x)), xp, fp, **kw)
    CTX.require("one table", len(LOG) == 1 and LOG[0][1][0] is xp and LOG[0][1][1] is fp)
    below, above = [bnot(ge0(e)) for e in (x - read("xp", [const(0)]), read("xp", [n - 1]) - x)]
    CTX.assume(ge0(read("xp", [n - 1]) - read("xp", [const(0)])))
    lo, hi = kw.get("left", read("fp", [const(0)])), kw.get("right", read("fp", [n - 1]))
    want = lo if bool(below) else hi if bool(above) else ufn("lut", x)
    is_num("value", r, want)
    must_raise("a period is refused", Exception, IN.interp, k(symnp.asT(x)), xp, fp, period=2.0)


@canary("concatenation in the opposite order must be refuted")
def wrong_order():
    n, m = dims(1, 1)
    is_vec("vectors", A.concatenate([V("a", n), V("b", m)]), n + m,
           lambda i: read("b", [i]) if bool(ge0(m - 1 - i)) else read("a", [i - m]))


@canary("reshape by columns must be refuted")
def by_columns():
    n, m = dims(2, 2)
    r = A.reshape(V("v", n * m), (n, m))
    i, j = idx("i", n), idx("j", m)
    CTX.require_eq("element", E(r.t, i, j), read("v", [j * n + i]))

"""C05: one model evaluation per stage, stacked in stage order, with matching structure."""
from contracts.common import *
import lumos.optimal_control.utils as U
import lumos.optimal_control.convolution as conv

assume_note("The mapped unit functions are taken by the contract of the batch map (C27): one result row per batch row.")


@goal("overlapping windows: out[b, w] = x[b*stride + w] for stride <= width <= 2*stride")
def windows():
    st = CTX.size("st", 1)
    ov = [const(0), const(1), CTX.index("ov", st + 1)][CTX.choose(3)]
    w = st + ov
    B = CTX.size("B", 1)
    L = (B - 1) * st + w
    rank = CTX.choose(3)
    extra = [CTX.size(f"d{k}", 1) for k in range(rank)]
    x = arr("x", L, *extra)
    y = U.batch_conv1d(x, width=w, stride=st)
    shape_is("shape", y, B, w, *extra)
    b, q = idx("b", B), idx("q", w)
    e = [idx("e", d) for d in extra]
    CTX.require_eq("element", elem(y, b, q, *e), read("x", [b * st + q] + e))


@goal("a length that is not a whole number of windows is refused")
def windows_refused():
    st = CTX.size("st", 2)
    B = CTX.size("B", 1)
    r = CTX.index("r", st - 1) + 1
    x = arr("x", B * st + r, CTX.size("d", 1))
    expect_raises("refused", ValueError, U.batch_conv1d, x, st, st)


@goal("offset structure: block b is the base shifted by b times the offsets")
def offset():
    n, B = CTX.size("n", 1), CTX.size("B", 1)
    ro, co = sym("ro", "int"), sym("co", "int")
    r, c = U.create_offset_structure(vec("r", n, "int"), vec("c", n, "int"), ro, co, B)
    shape_is("rows", r, B * n)
    shape_is("columns", c, B * n)
    b, t = idx("b", B), idx("t", n)
    CTX.require_eq("row", elem(r, b * n + t), read("r", [t], "int") + b * ro)
    CTX.require_eq("column", elem(c, b * n + t), read("c", [t], "int") + b * co)


@goal("stack and increment: copy k along the axis is the base plus k increments")
def stacking():
    rank = 1 + CTX.choose(3)
    dims = [CTX.size(f"d{k}", 1) for k in range(rank)]
    R, inc = CTX.size("R", 1), sym("inc", "int")
    x = arr("x", *dims, kind="int")
    ax = CTX.choose(rank + 2) - 1
    y = U.stack_and_increment(x, axis=ax, num_repeat=R, num_increment=inc)
    pos = ax % (rank + 1)
    out = dims[:pos] + [R] + dims[pos:]
    shape_is("shape", y, *out)
    e = [idx("e", d) for d in dims]
    k = idx("k", R)
    CTX.require_eq("element", elem(y, *(e[:pos] + [k] + e[pos:])), read("x", e, "int") + k * inc)


class Unit:
    """Unit problem by contract: the mapped functions return one opaque row per stage."""

    def __init__(self, V, m, nj, nh, S):
        self.num_in, self.num_con = V, m
        self.nj, self.nh, self.S = nj, nh, S
        self.got = {}

    def jacobianstructure(self):
        return vec("jr", self.nj, "int"), vec("jc", self.nj, "int")

    def hessianstructure(self):
        return vec("hr", self.nh, "int"), vec("hc", self.nh, "int")

    def mapped_constraints(self, *a):
        self.got["c"] = a
        return arr("UC", self.S, self.num_con)

    def mapped_jacobian(self, *a):
        self.got["j"] = a
        return arr("UJ", self.S, self.nj)

    def mapped_hessian(self, *a):
        self.got["h"] = a
        return arr("UH", self.S, self.nh)


def setup():
    op, groups, glob, n, N, M, S, V, off = layout()
    m = CTX.size("m", 1)
    nj, nh = CTX.size("nj", 0), CTX.size("nh", 0)
    for a in ("jc", "hr", "hc"):
        CTX.array_bounds(a, lambda *i: (const(0), V - 1))
    CTX.array_bounds("jr", lambda *i: (const(0), m - 1))
    u = Unit(V, m, nj, nh, S)
    scale = []

    def mesh_scale(x):
        scale.append(x)
        return sym("scale")
    params = object()
    c = conv.ConvConstraints(u, op, vec("mesh", S), mesh_scale, params)
    return c, u, op, S, V, m, nj, nh, params, scale


def inputs_ok(a, S, V, params, scale, op, lag=False):
    s, v = idx("s", S), idx("v", V)
    shape_is("batched variables", a[0], S, V)
    CTX.require_eq("variable v of stage s", elem(a[0], s, v), read("x", [s * V + v]))
    mesh = a[2] if lag else a[1]
    shape_is("mesh", mesh, S)
    CTX.require_eq("mesh of stage s", elem(mesh, s), read("mesh", [s]) * sym("scale"))
    CTX.require("parameters", a[3 if lag else 2] is params)
    i = idx("i", op.num_dec)
    CTX.require_eq("the mesh scale is asked for at the same point", elem(scale[-1], i), read("x", [i]))


@goal("stage constraints: stage s of the stack is the unit problem at stage s", timeout=600)
def constraints():
    c, u, op, S, V, m, nj, nh, params, scale = setup()
    CTX.require_eq("number of inputs", c.num_in, op.num_dec)
    CTX.require_eq("number of constraints", c.num_con, S * m)
    if CTX.choose(2):
        params = object()
        c.set_params(params)
    y = c.constraints(vec("x", op.num_dec))
    inputs_ok(u.got["c"], S, V, params, scale, op)
    shape_is("values", y, S * m)
    s, i = idx("s", S), idx("i", m)
    CTX.require_eq("value", elem(y, s * m + i), read("UC", [s, i]))


@goal("stage Jacobian: block s sits at rows s*m and columns s*V", timeout=600)
def jacobian():
    c, u, op, S, V, m, nj, nh, params, scale = setup()
    v = c.jacobian(vec("x", op.num_dec))
    inputs_ok(u.got["j"], S, V, params, scale, op)
    r, q = c.jacobianstructure()
    shape_is("values", v, S * nj)
    shape_is("rows", r, S * nj)
    shape_is("columns", q, S * nj)
    s, t = idx("s", S), idx("t", nj)
    CTX.require_eq("value", elem(v, s * nj + t), read("UJ", [s, t]))
    CTX.require_eq("row", elem(r, s * nj + t), s * m + read("jr", [t], "int"))
    CTX.require_eq("column", elem(q, s * nj + t), s * V + read("jc", [t], "int"))


@goal("stage Hessian: block s gets the multipliers of stage s and sits at s*V", timeout=600)
def hessian():
    c, u, op, S, V, m, nj, nh, params, scale = setup()
    v = c.hessian(vec("x", op.num_dec), vec("lam", S * m))
    inputs_ok(u.got["h"], S, V, params, scale, op, lag=True)
    bad = CTX.index("bad", CTX.size("B", 1))
    if CTX.choose(2):
        expect_raises("too many multipliers are refused", ValueError, c.hessian, vec("x", op.num_dec),
                      vec("lam", S * m + 1 + bad))
    s, i = idx("s", S), idx("i", m)
    shape_is("multipliers", u.got["h"][1], S, m)
    CTX.require_eq("multiplier of constraint i at stage s", elem(u.got["h"][1], s, i), read("lam", [s * m + i]))
    r, q = c.hessianstructure()
    shape_is("values", v, S * nh)
    shape_is("rows", r, S * nh)
    t = idx("t", nh)
    CTX.require_eq("value", elem(v, s * nh + t), read("UH", [s, t]))
    CTX.require_eq("row", elem(r, s * nh + t), s * V + read("hr", [t], "int"))
    CTX.require_eq("column", elem(q, s * nh + t), s * V + read("hc", [t], "int"))


@canary("columns advancing by the number of constraints must be refuted")
def wrong():
    c, u, op, S, V, m, nj, nh, params, scale = setup()
    r, q = c.jacobianstructure()
    s, t = idx("s", S), idx("t", nj)
    CTX.require_eq("column", elem(q, s * nj + t), s * m + read("jc", [t], "int"))

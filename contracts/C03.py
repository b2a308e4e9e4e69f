"""C03: scaling a component is exactly the change of variables x = s*x_hat, y = c*y_hat."""
from contracts.common import *
import lumos.optimal_control.nlp as nlp


class Fn:
    """Contract of an unscaled component function: records its arguments, returns opaque values."""

    def __init__(self, out):
        self.out, self.args, self.n = out, None, 0

    def __call__(self, *a, **k):
        self.args, self.n = a, self.n + 1
        return self.out() if callable(self.out) else self.out


def structure(name, rows, cols, dense):
    """(structure argument, entries, row(t), col(t)); rows/cols in range, several entries may share a place."""
    if dense:
        return None, rows * cols, None, None
    nnz = CTX.size("nnz_" + name, 0)
    CTX.array_bounds(name + "_r", lambda *i: (const(0), rows - 1))
    CTX.array_bounds(name + "_c", lambda *i: (const(0), cols - 1))
    return ((vec(name + "_r", nnz, "int"), vec(name + "_c", nnz, "int")), nnz,
            lambda t: read(name + "_r", [t], "int"), lambda t: read(name + "_c", [t], "int"))


def entry(t, c, dense, rows, cols, row, col):
    """row and column of the stored entry at coordinate c of the value array."""
    if dense:
        return c[0], c[1]
    return row(c), col(c)


def scales(c, kind, n, m):
    """Histories: any interleaving of the two setters ends in the last value set for each."""
    s = [const(1)] * 1
    S = lambda j: const(1)
    C = lambda r: const(1)
    for k, step in enumerate({0: "", 1: "s", 2: "c", 3: "sc", 4: "cs", 5: "scs", 6: "csc"}[kind]):
        if step == "s":
            c.set_input_scales(vec(f"s{k}", n))
            S = lambda j, k=k: read(f"s{k}", [j])
        else:
            c.set_con_scales(vec(f"c{k}", m))
            C = lambda r, k=k: read(f"c{k}", [r])
    return S, C


def make(dense_j, dense_h, cls=None):
    n, m = CTX.size("n", 1), CTX.size("m", 1)
    js, nj, jr, jc = structure("J", m, n, dense_j)
    hs, nh, hr, hc = structure("H", n, n, dense_h)
    f = Fn(vec("F", m))
    J = Fn(vec("DJ", n * m) if dense_j else vec("DJ", nj))
    H = Fn(vec("DH", n * n) if dense_h else vec("DH", nh))
    b = nlp.BaseConstraints(n, m, f, J, H, js, hs)
    return b, n, m, f, J, H, (nj, jr, jc), (nh, hr, hc)


@goal("scaled constraints are f(s*x)/c after any order of setting scales")
def constraints():
    b, n, m, f, J, H, _, _ = make(False, False)
    S, C = scales(b, CTX.choose(7), n, m)
    y = b.constraints(vec("x", n))
    shape_is("values", y, m)
    j, r = idx("j", n), idx("r", m)
    CTX.require_eq("argument of the unscaled function", elem(f.args[0], j), read("x", [j]) * S(j))
    CTX.require_eq("value", elem(y, r) * C(r), read("F", [r]))


@goal("scaled Jacobian values are c^-1 J s at their own row and column")
def jacobian():
    dense = CTX.choose(2) == 1
    b, n, m, f, J, H, (nj, jr, jc), _ = make(dense, False)
    S, C = scales(b, CTX.choose(7), n, m)
    v = b.jacobian(vec("x", n))
    rows, cols = b.jacobianstructure()
    shape_is("values", v, nj)
    shape_is("rows", rows, nj)
    shape_is("columns", cols, nj)
    j = idx("j", n)
    CTX.require_eq("argument of the unscaled Jacobian", elem(J.args[0], j), read("x", [j]) * S(j))
    if dense:
        r = idx("r", m)
        t = r * n + j
        row, col = r, j
    else:
        t = idx("t", nj)
        row, col = jr(t), jc(t)
    CTX.require_eq("row", elem(rows, t), row)
    CTX.require_eq("column", elem(cols, t), col)
    CTX.require_eq("value", elem(v, t) * C(row), read("DJ", [t]) * S(col))


@goal("scaled Hessian is s (sum of multiplier/c times Hessian) s at its own row and column")
def hessian():
    dense = CTX.choose(2) == 1
    b, n, m, f, J, H, _, (nh, hr, hc) = make(False, dense)
    S, C = scales(b, CTX.choose(7), n, m)
    v = b.hessian(vec("x", n), vec("lam", m))
    rows, cols = b.hessianstructure()
    shape_is("values", v, nh)
    shape_is("rows", rows, nh)
    j, r = idx("j", n), idx("r", m)
    CTX.require_eq("point of the unscaled Hessian", elem(H.args[0], j), read("x", [j]) * S(j))
    CTX.require_eq("multipliers of the unscaled Hessian", elem(H.args[1], r) * C(r), read("lam", [r]))
    if dense:
        k = idx("k", n)
        t, row, col = k * n + j, k, j
    else:
        t = idx("t", nh)
        row, col = hr(t), hc(t)
    CTX.require_eq("row", elem(rows, t), row)
    CTX.require_eq("column", elem(cols, t), col)
    CTX.require_eq("value", elem(v, t), read("DH", [t]) * S(row) * S(col))


@goal("extra arguments reach the unscaled functions unchanged")
def extra():
    b, n, m, f, J, H, _, _ = make(False, False)
    e = vec("e", CTX.size("q", 1))
    b.constraints(vec("x", n), e)
    b.jacobian(vec("x", n), e)
    b.hessian(vec("x", n), vec("lam", m), e)
    CTX.require("constraints", len(f.args) == 2 and f.args[1] is e)
    CTX.require("jacobian", len(J.args) == 2 and J.args[1] is e)
    CTX.require("hessian", len(H.args) == 3 and H.args[2] is e)


@goal("scaled objective, gradient and Hessian")
def objective():
    n = CTX.size("n", 1)
    dense = CTX.choose(2) == 1
    hs, nh, hr, hc = structure("H", n, n, dense)
    f, g, H = Fn(sym("F")), Fn(vec("G", n)), Fn(vec("DH", n * n) if dense else vec("DH", nh))
    o = nlp.BaseObjective(n, f, g, H, hs)
    times = CTX.choose(3)
    S = lambda j: const(1)
    for k in range(times):
        o.set_input_scales(vec(f"s{k}", n))
        S = lambda j, k=k: read(f"s{k}", [j])
    j = idx("j", n)
    CTX.require_eq("objective", o.objective(vec("x", n)), sym("F"))
    CTX.require_eq("argument of the objective", elem(f.args[0], j), read("x", [j]) * S(j))
    gr = o.gradient(vec("x", n))
    shape_is("gradient", gr, n)
    CTX.require_eq("argument of the gradient", elem(g.args[0], j), read("x", [j]) * S(j))
    CTX.require_eq("gradient", elem(gr, j), read("G", [j]) * S(j))
    v = o.hessian(vec("x", n))
    CTX.require_eq("argument of the Hessian", elem(H.args[0], j), read("x", [j]) * S(j))
    rows, cols = o.hessianstructure()
    if dense:
        k = idx("k", n)
        t, row, col = k * n + j, k, j
    else:
        t = idx("t", nh)
        row, col = hr(t), hc(t)
    shape_is("Hessian values", v, nh)
    CTX.require_eq("row", elem(rows, t), row)
    CTX.require_eq("column", elem(cols, t), col)
    CTX.require_eq("Hessian", elem(v, t), read("DH", [t]) * S(row) * S(col))


@goal("linear constraints: constant Jacobian, empty Hessian, same scaling law")
def linear():
    n, m = CTX.size("n", 1), CTX.size("m", 1)
    js, nj, jr, jc = structure("J", m, n, False)
    f, J = Fn(vec("F", m)), Fn(vec("DJ", nj))
    cache = CTX.choose(2) == 1
    b = nlp.LinearConstraints(n, m, f, J, js, cache_jacobian=cache)
    S, C = scales(b, CTX.choose(7), n, m)
    y = b.constraints(vec("x", n))
    j, r, t = idx("j", n), idx("r", m), idx("t", nj)
    CTX.require_eq("argument", elem(f.args[0], j), read("x", [j]) * S(j))
    CTX.require_eq("value", elem(y, r) * C(r), read("F", [r]))
    v = b.jacobian(vec("x", n))
    CTX.require_eq("Jacobian", elem(v, t) * C(jr(t)), read("DJ", [t]) * S(jc(t)))
    h = b.hessian(vec("x", n), vec("lam", m))
    rows, cols = b.hessianstructure()
    CTX.require_eq("Hessian entries", len(h), 0)
    CTX.require_eq("Hessian rows", len(rows), 0)
    CTX.require_eq("Hessian columns", len(cols), 0)


@canary("Jacobian scale with the factors swapped must be refuted")
def wrong():
    b, n, m, f, J, H, (nj, jr, jc), _ = make(False, False)
    S, C = scales(b, 3, n, m)
    v = b.jacobian(vec("x", n))
    t = idx("t", nj)
    CTX.require_eq("value", elem(v, t) * S(jc(t)), read("DJ", [t]) * C(jr(t)))

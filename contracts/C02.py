"""C02: continuity constraints A x = h B xdot, their exact Jacobian and Hessian."""
from contracts.ocp import *


def setup(points=True):
    fixed = CTX.choose(2) == 1
    kind = [2, "M"][CTX.choose(2)]
    return world(fixed, kind, points=points and CTX.choose(2) == 1)


def A(l, k):
    return read("A", [l, k])


def Bm(l, k):
    return read("B", [l, k])


@goal("continuity values: row (i, l, j) is sum_k A[l,k] x - h_i sum_k B[l,k] xdot", timeout=600)
def values():
    w = setup()
    con = w.ocp._constraints["continuity"]
    ns, M1 = w.n["states"], w.M - 1
    CTX.require_eq("number of constraints", con.num_con, w.N * M1 * ns)
    y = con.constraints(vec("x", w.num))
    shape_is("values", y, w.N * M1 * ns)
    i, l, j = idx("i", w.N), idx("l", M1), idx("j", ns)
    h = w.length(i) * w.mesh_scale()
    CTX.require_eq("value", elem(y, (i * M1 + l) * ns + j), ssum(
        w.M, lambda k: A(l, k) * X(w, "states", i, k, j) - h * Bm(l, k) * X(w, "states_dot", i, k, j)))


def row(w, i, l, j):
    return (i * (w.M - 1) + l) * w.n["states"] + j


def U(r):
    return read("U", [r])


def W(c):
    return read("W", [c])


def Wx(w, g, i, k, j):
    return W((i * (w.M - 1) + k) * w.V + w.off[g] + j)


@goal("continuity Jacobian: the derivative of the values in every direction", timeout=600)
def jacobian():
    w = setup()
    con = w.ocp._constraints["continuity"]
    v = con.jacobian(vec("x", w.num))
    r, c = con.jacobianstructure()
    got = weak("Jacobian", v, r, c, U, W)
    ns, M1 = w.n["states"], w.M - 1

    def f(i, l, j, k):
        h = w.length(i) * w.mesh_scale()
        d = A(l, k) * Wx(w, "states", i, k, j) - h * Bm(l, k) * Wx(w, "states_dot", i, k, j)
        if not w.fixed:
            d = d - w.length(i) * Bm(l, k) * X(w, "states_dot", i, k, j) * W(w.num - 1)
        return d * U(row(w, i, l, j))
    CTX.require_eq("sum over entries = derivative of U.c(x) along W", got, ssum(w.N, M1, ns, w.M, f))


@goal("continuity Hessian: second derivative of multipliers times values, one triangle", timeout=600)
def hessian():
    w = setup()
    con = w.ocp._constraints["continuity"]
    ns, M1 = w.n["states"], w.M - 1
    v = con.hessian(vec("x", w.num), vec("U", w.N * M1 * ns))
    r, c = con.hessianstructure()
    if w.fixed:
        CTX.require_eq("no entries on a fixed mesh", weak("Hessian", v, r, c, W, W), const(0))
        return
    got = weak("Hessian", v, r, c, W, lambda q: read("Z", [q]))

    # d/dmesh d/dxdot: the upper triangle has the mesh scale (last position) as the column
    def f(i, l, j, k):
        return (-w.length(i) * Bm(l, k) * Wx(w, "states_dot", i, k, j) * read("Z", [w.num - 1]) * U(row(w, i, l, j)))
    CTX.require_eq("sum over entries = mixed derivative", got, ssum(w.N, M1, ns, w.M, f))


@canary("continuity with the opposite sign must be refuted")
def wrong():
    w = world(True, "M")
    y = w.ocp._constraints["continuity"].constraints(vec("x", w.num))
    i, l, j = idx("i", w.N), idx("l", w.M - 1), idx("j", w.n["states"])
    h = w.length(i) * w.mesh_scale()
    CTX.require_eq("value", elem(y, (i * (w.M - 1) + l) * w.n["states"] + j), ssum(
        w.M, lambda k: A(l, k) * X(w, "states", i, k, j) + h * Bm(l, k) * X(w, "states_dot", i, k, j)))

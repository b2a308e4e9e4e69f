"""C07: the normalized mesh, interval lengths, and which interval points are refused."""
from contracts.ocp import *

TOL = lift(1) / 100000


def tau(w, k):
    """Relative position of stage k in its interval (stages 0 and M-1 are the interval ends)."""
    return read("tau", [k - 1])


def stage_point(w, i, k):
    """Expected normalized mesh at stage k (1 <= k <= M-1) of interval i."""
    a, h = start(w, i), w.length(i)
    if w.M.is_const():
        return a + h
    if CTX.prove(eq(k, w.M - 1)):
        return a + h
    return a + tau(w, k) * h


def start(w, i):
    return read("ip", [i]) if w.points else lift(i) / w.N


def make(points=None):
    fixed = CTX.choose(2) == 1
    kind = [2, "M"][CTX.choose(2)]
    return world(fixed, kind, orders=False, points=(CTX.choose(2) == 1) if points is None else points)


@goal("one mesh point per stage, at the scheme's relative position in its interval", timeout=600)
def positions():
    w = make()
    m = w.ocp._flat_normalized_mesh
    shape_is("mesh", m, w.S)
    CTX.require_eq("first point", elem(m, 0), start(w, 0))
    i = idx("i", w.N)
    CTX.require_eq("interval end", elem(m, (i + 1) * (w.M - 1)), start(w, i) + w.length(i))
    if not w.M.is_const():
        CTX.assume(ge0(w.M - 3))
        k = idx("k", w.M - 2) + 1
        CTX.require_eq("interior stage", elem(m, i * (w.M - 1) + k), start(w, i) + tau(w, k) * w.length(i))
    L = w.ocp._normalized_interval_length
    shape_is("lengths", L, w.N)
    CTX.require_eq("length", elem(L, i), w.length(i))


@goal("the mesh starts at 0, ends at 1 and increases", timeout=600)
def monotone():
    w = make()
    m = w.ocp._flat_normalized_mesh
    if w.points:
        for e, v in ((0, 0), (w.S - 1, 1)):
            d = elem(m, e) - v
            CTX.require(f"within the tolerance of {v}", band(ge0(TOL - d), ge0(TOL + d)))
    else:
        CTX.require_eq("starts at 0", elem(m, 0), const(0))
        CTX.require_eq("ends at 1", elem(m, w.S - 1), const(1))
    i = idx("i", w.N)
    instantiate(i)
    h = w.length(i)
    CTX.require("interval lengths are positive", band(ge0(h), bnot(eq(h, const(0)))))
    if w.M.is_const():
        d = elem(m, i + 1) - elem(m, i)
        CTX.require("increasing", band(ge0(d), bnot(eq(d, const(0)))))
        return
    # the scheme's stage positions increase from 0 to 1 (C06): the mesh increases with them
    k = idx("k", w.M - 1)
    pos = lambda q: (const(0) if CTX.prove(eq(q, const(0))) else
                     const(1) if CTX.prove(eq(q, w.M - 1)) else read("tau", [q - 1]))
    case = CTX.choose(3)
    if case == 0:
        CTX.assume(eq(k, const(0)))
        k = const(0)
    elif case == 1:
        CTX.assume(eq(k, w.M - 2))
        k = w.M - 2
    else:
        CTX.assume(ge0(k - 1))
        CTX.assume(ge0(w.M - 3 - k))
    if case == 0 and CTX.choose(2):
        CTX.assume(eq(w.M, const(2)))
    elif case != 2:
        CTX.assume(ge0(w.M - 3))
    dt = pos(k + 1) - pos(k)
    CTX.assume(ge0(dt))
    CTX.assume(bnot(eq(dt, const(0))))
    d = elem(m, i * (w.M - 1) + k + 1) - elem(m, i * (w.M - 1) + k)
    CTX.require_eq("step", d, dt * h)


@goal("meshes of a scale are the normalized mesh times the scale")
def scaled():
    w = make()
    m = w.ocp._flat_normalized_mesh
    s = m.spaces[0].lin(any_coord(m.spaces[0]))
    q = sym("q")
    t = w.ocp.get_mesh_from_scale(q)
    shape_is("mesh from scale", t, w.S)
    CTX.require_eq("mesh from scale", elem(t, s), q * elem(m, s))
    t = w.ocp.get_mesh_from_dec_var(vec("x", w.num))
    shape_is("mesh from variables", t, w.S)
    CTX.require_eq("mesh from variables", elem(t, s), w.mesh_scale() * elem(m, s))
    if w.fixed:
        CTX.require_eq("mesh", elem(w.ocp.get_mesh(), s), w.scale * elem(m, s))
        w.ocp.set_mesh_scale(q)
        CTX.require_eq("mesh of the new scale", elem(w.ocp.get_mesh(), s), q * elem(m, s))
        CTX.require_eq("mesh from variables", elem(w.ocp.get_mesh_from_dec_var(vec("x", w.num)), s), q * elem(m, s))


@goal("interval points of the wrong size are refused")
def wrong_size():
    w = make(False)
    d = CTX.size("d", 1)
    L = w.N + 1 + d
    if CTX.choose(2):
        CTX.assume(ge0(w.N - d))
        L = w.N + 1 - d
    must_raise("refused", ValueError, w.ocp.set_normalized_mesh, vec("ip", L))


@goal("interval points that do not span [0, 1] are refused")
def wrong_ends():
    w = make(False)
    e, v = [(const(0), 0), (w.N, 1)][CTX.choose(2)]
    d = read("ip", [e]) - v
    CTX.assume([ge0(d - TOL), ge0(-d - TOL)][CTX.choose(2)])
    must_raise("refused", ValueError, w.ocp.set_normalized_mesh, vec("ip", w.N + 1))


@goal("interval points that are not strictly increasing are refused")
def not_increasing():
    w = make(False)
    i = idx("i", w.N)
    CTX.assume(ge0(read("ip", [i]) - read("ip", [i + 1])))
    must_raise("refused", ValueError, w.ocp.set_normalized_mesh, vec("ip", w.N + 1), at=[i])


@goal("every strictly increasing partition of [0, 1] is accepted")
def accepted():
    w = make(False)
    CTX.assume(eq(read("ip", [const(0)]), const(0)))
    CTX.assume(eq(read("ip", [w.N]), const(1)))
    # strictly increasing: the counterexample a refusal would need is refuted at its own position
    from lumver.ctx import Infeasible
    try:
        w.ocp.set_normalized_mesh(vec("ip", w.N + 1))
    except ValueError as ex:
        try:
            for holds, vs, cond, val in list(quantified()):
                if not holds:
                    k = CTX.index("wit", vs[0][1])
                    env = {vid(vs[0][0]): k}
                    CTX.assume(bsubst(cond, env))
                    CTX.assume(bnot(bsubst(val, env)))
                    CTX.assume(bnot(ge0(read("ip", [k]) - read("ip", [k + 1]))))
            if CTX.infeasible():
                raise Infeasible()
        except Infeasible:
            CTX.require("accepted", True)
            return
        CTX.fail("accepted", f"raises {ex}")
        return
    CTX.require("accepted", True)


@canary("interval points of any size are refused (must be refuted)")
def wrong():
    w = make(False)
    must_raise("refused", ValueError, w.ocp.set_normalized_mesh, vec("ip", w.N + 1))

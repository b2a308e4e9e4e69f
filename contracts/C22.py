"""C22: the built-in objectives and their exact derivatives."""
from contracts.ocp import *
import lumos.simulations.laptime_simulation as lap

W = lambda c: read("W", [c])


def mesh_world(kind=None):
    return world(False, kind or [2, "M"][CTX.choose(2)])


def time_world(cls=None, **cfg):
    """A fixed-mesh problem whose states include 'time' (and inputs 'steer') anywhere."""
    pos = dict(states="time")
    if cls is not None:
        pos["inputs"] = "steer"
    return world(True, [2, "M"][CTX.choose(2)], special=pos, cls=cls, **cfg)


def objective(w, name, value, gradient, curvature=None):
    """value: P; gradient: derivative along W; curvature: second derivative along W, Z."""
    o = w.ocp._objectives[name]
    x = vec("x", w.num)
    CTX.require_eq("value", lift(o.objective(x)), value)
    g = o.gradient(x)
    shape_is("gradient", g, w.num)
    from lumver.tensor import split_sum
    tot = const(0)
    for vs, c, b in g.spaces[0].binders():
        f = lambda: lift(g.el(c)) * W(g.spaces[0].lin(c)) * iverson(b)
        tot = tot + split_sum(vs, f)
    CTX.require_eq("gradient = derivative in every direction", tot, gradient)
    r, c = o.hessianstructure()
    h = o.hessian(x)
    got = weak("Hessian", h, r, c, W, lambda q: read("Z", [q]))
    CTX.require_eq("Hessian = second derivative", got, const(0) if curvature is None else curvature)


@goal("free mesh: the time objective is the mesh scale", timeout=600)
def free():
    w = mesh_world()
    objective(w, "time", read("x", [w.num - 1]), W(w.num - 1))


@goal("fixed mesh: the time objective is last minus first value of the time state", timeout=600)
def fixed():
    w = time_world()
    a = w.off["states"] + w.special["states"]
    b = (w.S - 1) * w.V + a
    objective(w, "time", read("x", [b]) - read("x", [a]), W(b) - W(a))


@goal("lap time problem: time objective", timeout=600)
def lap_time():
    w = time_world(lap.LaptimeSimulation)
    a = w.off["states"] + w.special["states"]
    b = (w.S - 1) * w.V + a
    objective(w, "time", read("x", [b]) - read("x", [a]), W(b) - W(a))


@goal("lap time problem: input penalty is the stage average of the squared steering input", timeout=600)
def penalty():
    w = time_world(lap.LaptimeSimulation)
    p = lambda s: s * w.V + w.off["inputs"] + w.special["inputs"]
    X = lambda s: read("x", [p(s)])
    objective(w, "inputs_penalty", ssum(w.S, lambda s: X(s) * X(s)) / w.S,
              ssum(w.S, lambda s: 2 * X(s) * W(p(s))) / w.S,
              ssum(w.S, lambda s: 2 * W(p(s)) * read("Z", [p(s)])) / w.S)


@goal("any weights: value, gradient and Hessian of the weighted penalty", timeout=600)
def weighted():
    w = time_world(lap.LaptimeSimulation)
    x = vec("x", w.num)
    j = idx("j", w.n["inputs"])
    q = sym("q")
    wt = {"steer": q} if CTX.choose(2) else {w.model.names.inputs.get(j): q}
    at = w.special["inputs"] if "steer" in wt else j
    p = lambda s: s * w.V + w.off["inputs"] + at
    X = lambda s: read("x", [p(s)])
    part = CTX.choose(3)
    if part == 0:
        CTX.require_eq("value", lift(w.ocp._inputs_penalty(x, wt)), ssum(w.S, lambda s: q * X(s) * X(s)) / w.S)
    elif part == 1:
        from lumver.tensor import split_sum
        g = w.ocp._inputs_penalty_grad(x, wt)
        shape_is("gradient", g, w.num)
        tot = const(0)
        for vs, c, b in g.spaces[0].binders():
            tot = tot + split_sum(vs, lambda: lift(g.el(c)) * W(g.spaces[0].lin(c)) * iverson(b))
        CTX.require_eq("gradient", tot, ssum(w.S, lambda s: 2 * q * X(s) * W(p(s))) / w.S)
    else:
        r, c = w.ocp._inputs_penalty_hessian_structure()
        got = weak("Hessian", w.ocp._inputs_penalty_hessian(x, wt), r, c, W, lambda q: read("Z", [q]))
        CTX.require_eq("Hessian", got, ssum(w.S, lambda s: 2 * q * W(p(s)) * read("Z", [p(s)])) / w.S)


@canary("the penalty gradient without the factor two must be refuted")
def wrong():
    w = time_world(lap.LaptimeSimulation)
    g = w.ocp._inputs_penalty_grad(vec("x", w.num))
    s = idx("s", w.S)
    p = s * w.V + w.off["inputs"] + w.special["inputs"]
    CTX.require_eq("gradient", elem(g, p), read("x", [p]) / w.S)

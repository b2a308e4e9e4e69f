"""Runtime contract: built-in objectives, their gradients and Hessians."""
import numpy as np

from concrete.access import objectives_of
from concrete.base import case, require, close, equal, twice, vec
from concrete import toy
from lumos.simulations.laptime_simulation import LaptimeSimulation


def probe(rng, w, o, value, grad, hess, what):
    """o against the unscaled value/gradient/Hessian oracles at random points and scales."""
    ones = np.ones(w.num)
    for k in range(3):
        sc = ones if k == 0 else np.exp(rng.uniform(-1.5, 1.5, w.num))
        if k:
            o.set_input_scales(sc)
        x = vec(rng, w.num) * 10 ** rng.uniform(-1, 2)
        x0 = x.copy()
        u = x * sc
        close(twice(rng, o.objective, x), value(u), f"{what}: value")
        g = np.asarray(twice(rng, o.gradient, x))
        close(g, grad(u) * sc, f"{what}: gradient")
        r, c = o.hessianstructure()
        h = np.asarray(twice(rng, o.hessian, x))
        require(np.shape(r) == np.shape(c) == np.shape(h), f"{what}: Hessian values and structure differ in size")
        close(toy.dense(r, c, h, (w.num, w.num)), hess(u) * np.outer(sc, sc), f"{what}: Hessian")
        equal(x, x0, "the evaluation changed its argument")


def time_fns(w):
    d = np.zeros(w.num)
    if w.fixed:
        a = w.off["states"] + list(w.model.get_group_names("states")).index("time")
        d[a] -= 1
        d[(w.S - 1) * w.V + a] += 1
    else:
        d[-1] = 1
    return (lambda u: d @ u), (lambda u: d), (lambda u: np.zeros((w.num, w.num)))


def time_states(rng):
    n = int(rng.integers(0, 3))
    s = [f"q{k}" for k in range(n)]
    s.insert(int(rng.integers(n + 1)), "time")
    return tuple(s)


@case(quick=80)
def time(rng):
    fixed = bool(rng.integers(2))
    w = toy.world(rng, fixed=fixed, states=time_states(rng) if fixed else None)
    probe(rng, w, objectives_of(w.ocp)["time"], *time_fns(w), "time objective")
    x = vec(rng, w.num)
    objectives_of(w.ocp)["time"].set_input_scales(np.ones(w.num))
    close(w.ocp.objective(x), time_fns(w)[0](x), "objective of the problem")
    close(w.ocp.gradient(x), time_fns(w)[1](x), "gradient of the problem")
    return dict(fixed=fixed, tr=str(w.tr))


def lap_world(rng):
    """A lap time problem over a toy model with a time state and a steer input (no track, no vehicle)."""
    states = time_states(rng)
    w = toy.world(rng, fixed=True, states=states, sizes=(len(states), int(rng.integers(1, 4)), int(rng.integers(0, 3))),
                  inputs="steer", cls=LaptimeSimulation)
    return w


def steer_pos(w, name="steer"):
    a = w.off["inputs"] + list(w.model.get_group_names("inputs")).index(name)
    return np.arange(w.S) * w.V + a


def penalty_fns(w, weights=None):
    q = np.zeros(w.num)
    for n, v in (weights or {"steer": 1.0}).items():
        q[steer_pos(w, n)] = v
    return (lambda u: (q * u * u).sum() / w.S), (lambda u: 2 * q * u / w.S), (lambda u: np.diag(2 * q / w.S))


@case(quick=80)
def penalty(rng):
    w = lap_world(rng)
    probe(rng, w, objectives_of(w.ocp)["inputs_penalty"], *penalty_fns(w), "input penalty")
    probe(rng, w, objectives_of(w.ocp)["time"], *time_fns(w), "time objective")
    x = vec(rng, w.num)
    ones = np.ones(w.num)
    for o in objectives_of(w.ocp).values():
        o.set_input_scales(ones)
    p, t = penalty_fns(w), time_fns(w)
    close(w.ocp.objective(x), p[0](x) + t[0](x), "objective of the problem")
    close(w.ocp.gradient(x), p[1](x) + t[1](x), "gradient of the problem")
    return dict(N=w.N, tr=str(w.tr))


@case(quick=60)
def weights(rng):
    """The penalty for other weights than the default."""
    w = lap_world(rng)
    ins = list(w.model.get_group_names("inputs"))
    wt = {n: float(rng.normal()) for n in ins if rng.integers(2)} or {ins[0]: 2.0}
    f, g, h = penalty_fns(w, wt)
    x = vec(rng, w.num)
    close(w.ocp._inputs_penalty(x, wt), f(x), "weighted penalty")
    close(w.ocp._inputs_penalty_grad(x, wt), g(x), "gradient of the weighted penalty")
    r, c = w.ocp._inputs_penalty_hessian_structure()
    close(toy.dense(r, c, w.ocp._inputs_penalty_hessian(x, wt), (w.num, w.num)), h(x), "Hessian of the weighted penalty")
    return dict(N=w.N)

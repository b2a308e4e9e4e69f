"""Runtime contract: the drone model and the drone problem."""
import casadi
import numpy as np

import lumos.numpy as lnp
from concrete.base import case, close, equal, require
from lumos.models.drone_model import DroneModel
from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig, ScaleConfig
from lumos.optimal_control.nlp import BaseObjective
from lumos.simulations.drone_simulation import DroneSimulation

STATES = ("x", "x_dot", "z", "z_dot", "theta")


def point(rng):
    s = {n: float(rng.normal() * 3) for n in STATES}
    u = dict(f=float(rng.normal() * 10), omega=float(rng.normal() * 5))
    if rng.integers(4) == 0:
        s["theta"] = float(rng.choice([0, np.pi / 2, np.pi, -np.pi / 2]))
    return s, u


def motion(s, u, g):
    return (dict(x=s["x_dot"], x_dot=u["f"] * np.sin(s["theta"]), z=s["z_dot"], z_dot=u["f"] * np.cos(s["theta"]) - g,
                 theta=u["omega"]), dict(sin_theta=np.sin(s["theta"]), f_omega=u["f"] * u["omega"]))


@case(quick=200)
def equations(rng):
    g = float(rng.choice([0, 1, -9.81, rng.uniform(-20, 20), rng.uniform(0, 20)]))
    m = DroneModel()
    par = m.get_recursive_params()
    par.set_param("gravity", g)
    m.set_recursive_params(par)
    s, u = point(rng)
    sd, out = motion(s, u, g)
    want = {**sd, **{"o." + k: v for k, v in out.items()}}
    flat = lambda r: {**r.states_dot, **{"o." + k: v for k, v in r.outputs.items()}}
    for mesh in (0.0, 3.0):
        got = flat(m.forward(states=dict(s), inputs=dict(u), mesh=mesh))
        require(set(got) == set(want), f"names {sorted(got)}")
        close([got[k] for k in want], list(want.values()), f"motion at {s}, {u}")
    a = m.forward_with_arrays(np.array([s[n] for n in m.get_group_names("states")]),
                              np.array([u[n] for n in m.get_group_names("inputs")]), 0.0)
    close(a.states_dot, [sd[n] for n in m.get_group_names("states")], "vector of rates")
    with lnp.use_backend("casadi"):
        S, U = ({k: casadi.SX.sym(k) for k in d} for d in (s, u))
        r = flat(m.forward(states=dict(S), inputs=dict(U)))
        f = casadi.Function("f", [*S.values(), *U.values()], [r[k] for k in want])
    close([float(v) for v in f(*s.values(), *u.values())], list(want.values()), "motion (casadi)")
    with lnp.use_backend("jax"):
        r = flat(m.forward(states=dict(s), inputs=dict(u)))
        close([float(r[k]) for k in want], list(want.values()), "motion (jax)")


@case(quick=20, thorough=150)
def problem(rng):
    N = int(rng.integers(1, 6))
    tr = ["Trapezoidal", "ForwardEuler", ("LGR", {"num_stages": 3}), ("LGRIntegral", {"num_stages": 2})][int(rng.integers(4))]
    kw = dict(num_intervals=N, transcription=tr, backend="casadi")
    if rng.integers(2):
        p = np.concatenate([[0.0], np.cumsum(rng.uniform(0.3, 1, N))])
        kw["interval_points"] = p / p[-1]
    if rng.integers(2):
        kw["con_output_names"] = [(), ("f_omega",), ("f_omega", "sin_theta")][int(rng.integers(3))]
    g = float(rng.choice([0, -3.0, rng.uniform(1, 20)]))
    par = DroneModel().get_recursive_default_params()
    par.set_param("gravity", g)
    o = DroneSimulation(model_params=par, sim_config=DroneSimulation.get_sim_config(**kw))
    S, op = o.num_stages, o.dec_var_operator

    def consistent(x, what):
        T = float(x[-1])
        close(o.get_total_time(x), T, "total time")
        v = {n: op.get_var(x, "states", n) for n in STATES}
        u = {n: op.get_var(x, "inputs", n) for n in ("f", "omega")}
        for k in range(S):
            sd, out = motion({n: v[n][k] for n in v}, {n: u[n][k] for n in u}, g)
            for n in STATES:
                close(op.get_var(x, "states_dot", n)[k], sd[n], f"{what}: derivative of {n} at stage {k}")
            for n in kw.get("con_output_names", ("sin_theta",)):
                close(op.get_var(x, "con_outputs", n)[k], out[n], f"{what}: {n} at stage {k}")
    if rng.integers(2):         # another objective and another scale of the time: the total time is still the last entry
        n = o.num_dec
        o.add_objective("more", BaseObjective(n, lambda x: float(x @ x), lambda x: 2 * x, lambda x: np.full(n, 2.0),
                                              (np.arange(n), np.arange(n))))
        o.set_scales((ScaleConfig("global", "mesh_scale", float(rng.uniform(0.2, 4))),))
        T = float(rng.uniform(0.1, 9))
        close(o.get_total_time(np.append(rng.normal(size=n - 1), T)), T, "total time")
        o.delete_objective("more")
        o.set_scales((ScaleConfig("global", "mesh_scale", 1.0),))
    x = o.get_init_guess()
    equal(x.shape, (o.num_dec,), "initial guess")
    require(np.isfinite(x).all() and x[-1] > 0, "initial guess")
    consistent(x, "initial guess")
    close(o.objective(np.asarray(x)) , x[-1], "the objective is the total time")
    # default settings: rest to rest with a full turn
    first, last = (op.get_var(o.lb, "states", n)[[0, -1]] for n in STATES), (op.get_var(o.ub, "states", n)[[0, -1]] for n in STATES)
    for n, lo, hi in zip(STATES, first, last):
        end = {"z": 5.0, "theta": 2 * np.pi}.get(n, 0.0)
        close(lo, [0.0, end], f"{n} is pinned at both ends")
        close(hi, [0.0, end], f"{n} is pinned at both ends")
    if N > 1:
        for n, (lo, hi) in dict(x=(-50, 50), x_dot=(-50, 50), z=(-50, 50), z_dot=(-50, 50),
                                theta=(-10 * np.pi, 10 * np.pi)).items():
            close(op.get_var(o.lb, "states", n)[1:-1], np.full(S - 2, lo), f"lower bound of {n}")
            close(op.get_var(o.ub, "states", n)[1:-1], np.full(S - 2, hi), f"upper bound of {n}")
    for n, (lo, hi) in dict(f=(1, 20), omega=(-10, 10)).items():
        close(op.get_var(o.lb, "inputs", n), np.full(S, lo), f"lower bound of {n}")
        close(op.get_var(o.ub, "inputs", n), np.full(S, hi), f"upper bound of {n}")
    close([o.lb[-1], o.ub[-1]], [0.1, 50], "bounds of the total time")
    return dict(N=N, tr=str(tr), out=str(kw.get("con_output_names")))


@case(quick=10, thorough=60)
def feasible(rng):
    """A motion that obeys the equations of motion satisfies the problem's constraints (up to the accuracy of the scheme)."""
    g = float(rng.uniform(1, 20))
    par = DroneModel().get_recursive_default_params()
    par.set_param("gravity", g)
    N = 12
    o = DroneSimulation(model_params=par, sim_config=DroneSimulation.get_sim_config(
        num_intervals=N, transcription=("LGR", {"num_stages": 6}), backend="casadi"))
    T = float(rng.uniform(0.5, 2))
    t = o.get_mesh_from_scale(T)
    th0, w, f = float(rng.normal()), float(rng.uniform(0.5, 2)), float(rng.uniform(1, 20))
    th = th0 + w * t
    S, C = np.sin(th), np.cos(th)
    st = dict(x=-f * S / w ** 2, x_dot=-f * C / w, z=-f * C / w ** 2 - g * t ** 2 / 2, z_dot=f * S / w - g * t, theta=th)
    sd = dict(x=st["x_dot"], x_dot=f * S, z=st["z_dot"], z_dot=f * C - g, theta=0 * t + w)
    m = o.model
    x = o.dec_var_operator.flatten_var(
        states=np.stack([st[n] for n in m.get_group_names("states")], -1),
        inputs=np.stack([dict(f=0 * t + f, omega=0 * t + w)[n] for n in m.get_group_names("inputs")], -1),
        states_dot=np.stack([sd[n] for n in m.get_group_names("states")], -1),
        con_outputs=S.reshape(-1, 1), mesh_scale=T)
    c = np.asarray(o.constraints(x))
    require(np.abs(c).max() < 1e-6, f"a motion of the drone violates the constraints by {np.abs(c).max():.3g}")
    return dict(T=round(T, 2))

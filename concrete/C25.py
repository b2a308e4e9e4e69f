"""Runtime contract: the lap time problem is the problem of its current track."""
import os

import numpy as np
import pandas as pd

from concrete.access import constraints_of, flat_mesh
from concrete.base import case, require, close, equal
from concrete.lines import line, expected, interp
from lumos.models.simple_vehicle_on_track import SimpleVehicleOnTrack
from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig
from lumos.simulations.laptime_simulation import LaptimeSimulation


class Line:
    """A random track in a file, and what it is."""
    count = 0

    def __init__(self, rng, like=None):
        """like: another track; this one may be a variant of it (of the same length, say), or in the same file."""
        k = int(rng.integers(6)) if like else 9
        while True:
            x, y = line(rng)
            if k < 3:
                x, y = like.x, -like.y if k else like.y       # mirrored, or with other widths only
            self.s, self.k, self.h = expected(x, y)
            if len(x) > 3 and np.abs(self.k).max() < 0.5:
                break
        self.x, self.y, n = np.array(x), np.array(y), len(x)
        w = [1, 1, 1, 30, 0.1][int(rng.integers(5))]       # also very wide and very narrow tracks
        self.left, self.right = w * rng.uniform(1, 6, n), w * rng.uniform(1, 6, n)
        Line.count += 1
        self.file = os.path.abspath(f"track{Line.count}.csv") if k not in (2, 3) else like.file
        pd.DataFrame({"# x_m": x, "y_m": y, "w_tr_right_m": self.right, "w_tr_left_m": self.left}).to_csv(
            self.file, index=False)

    def at(self, v, d):
        return np.array([interp(q, self.s, v) for q in d])


CONFIG = SimpleVehicleOnTrack.get_recursive_default_model_config()
PARAMS = []


def params():
    if not PARAMS:
        PARAMS.append(SimpleVehicleOnTrack(model_config=CONFIG).get_recursive_default_params())
    return PARAMS[0]


def settings(rng):
    """Random settings of a lap time problem: (keywords, M, normalized mesh points of the intervals)."""
    k = int(rng.integers(24))
    N = 1 if k < 4 else int(rng.integers(30, 90)) if k == 4 else int(rng.integers(2, 6))
    tr, M = [("Trapezoidal", 2), ("ForwardEuler", 2), (("LGR", {"num_stages": 3}), 4),
             (("LGRIntegral", {"num_stages": 2}), 3)][int(rng.integers(4))]
    kw = dict(num_intervals=N, transcription=tr, backend="casadi", is_cyclic=bool(rng.integers(2)),
              is_condensed=bool(rng.integers(2)))
    if rng.integers(2):
        p = np.concatenate([[0.0], np.sort(rng.uniform(0.05, 0.95, N - 1)), [1.0]])
        if np.diff(p).min() > 0.02:
            kw["interval_points"] = p
    return kw, N


class Expected:
    """What the bounds are."""

    def __init__(self, o, cfg, conditions):
        self.o, self.S = o, o.num_stages
        self.b = {}
        for b in cfg.bounds:
            self.set(b)
        if cfg.is_condensed:
            for n in o.model.get_group_names("states_dot"):
                self.b["states_dot", n] = (np.zeros(self.S), np.zeros(self.S))
        self.conditions = list(conditions)

    def set(self, b):
        self.b[b.group, b.name] = tuple(np.broadcast_to(v, self.S).astype(float) for v in b.values)

    def track(self, t):
        self.t = t
        self.d = self.o.get_mesh()
        k, h = t.at(t.k, self.d), t.at(t.h, self.d)
        self.b["inputs", "track_curvature"], self.b["inputs", "track_heading"] = (k, k), (h, h)
        self.b["states", "n"] = -t.at(t.right, self.d), t.at(t.left, self.d)

    def check(self, what):
        o = self.o
        L = self.t.s[-1]
        close(o.get_mesh(), np.asarray(flat_mesh(o)) * L, f"{what}: mesh")
        close(o.get_mesh()[[0, -1]], [0, L], f"{what}: ends of the mesh")
        lb, ub = np.asarray(o.lb).copy(), np.asarray(o.ub).copy()
        require(len(lb) == len(ub) == o.num_dec, f"{what}: number of bounds")
        for g in ("states", "inputs", "states_dot", "con_outputs"):
            for n in o.model.get_group_names(g):
                lo, hi = (v.copy() for v in self.b.get((g, n), (np.full(self.S, -np.inf), np.full(self.S, np.inf))))
                for c in self.conditions:
                    if (c.group, c.name) == (g, n):
                        lo[c.stage] = hi[c.stage] = c.value
                close(o.get_lb(g, n), lo, f"{what}: lower bound of {g}.{n}", rtol=1e-7)
                close(o.get_ub(g, n), hi, f"{what}: upper bound of {g}.{n}", rtol=1e-7)

    def check_guess(self, what):
        o, t, d = self.o, self.t, self.d
        x = np.asarray(o.get_init_guess())
        require(x.shape == (o.num_dec,) and np.isfinite(x).all(), f"{what}: initial guess")
        g = lambda group, name: np.asarray(o.dec_var_operator.get_var(x, group, name))
        close(g("inputs", "track_curvature"), t.at(t.k, d), f"{what}: curvature of the initial guess", rtol=1e-7)
        close(g("inputs", "track_heading"), t.at(t.h, d), f"{what}: heading of the initial guess", rtol=1e-7)
        v = g("states", "vx")
        require((v == v[0]).all() and v[0] > 0, f"{what}: speed of the initial guess")
        close(g("states", "time") * v, d, f"{what}: time of the initial guess", rtol=1e-9)
        every = lambda group: np.stack([g(group, n) for n in o.model.get_group_names(group)], 1)
        r = o.model.batched_forward(every("states"), every("inputs"), d, params())
        for group, val in (("states_dot", r.states_dot), ("con_outputs", r.con_outputs)):
            close(every(group), np.asarray(val), f"{what}: {group} of the initial guess", rtol=1e-7)
        return x


def build(rng, kw, t, **extra):
    return LaptimeSimulation(model_params=params(), model_config=CONFIG,
                             sim_config=LaptimeSimulation.get_sim_config(track=t.file, **kw, **extra))


def conditions(rng, S):
    out = []
    for _ in range(int(rng.integers(0, 4))):
        g, n = [("states", "n"), ("states", "vx"), ("states", "time"), ("inputs", "steer"), ("states", "eta"),
                ("inputs", "track_curvature")][int(rng.integers(6))]
        out.append(BoundaryConditionConfig(int(rng.integers(-S, S)), g, n, float(rng.normal())))
    return tuple(out)


def user_bound(rng, S):
    g, n = [("states", "vx"), ("states", "n"), ("inputs", "steer"), ("states", "yaw_rate")][int(rng.integers(4))]
    lo = rng.normal(size=S)
    v = (lo, lo + rng.uniform(0, 3, S)) if rng.integers(2) else (float(lo[0]), float(lo[0]) + 2)
    return BoundConfig(g, n, v)


@case(quick=60, thorough=400)
def history(rng):
    """Any sequence of track changes, bound updates and boundary conditions."""
    kw, N = settings(rng)
    t = Line(rng)
    extra = {}
    if rng.integers(2):
        extra["boundary_conditions"] = conditions(rng, N)
    cfg = LaptimeSimulation.get_sim_config(track=t.file, **kw, **extra)
    o = LaptimeSimulation(model_params=params(), model_config=CONFIG, sim_config=cfg)
    e = Expected(o, cfg, cfg.boundary_conditions)
    e.track(t)
    e.check("constructed")
    if rng.integers(2):
        e.check_guess("constructed")
    for k in range(int(rng.integers(1, 5))):
        op = int(rng.integers(4))
        if op <= 1:
            t = Line(rng, t)
            o.set_track(t.file)
            e.track(t)
            e.check("track changed")
            e.check_guess("track changed")
        elif op == 2:
            b = user_bound(rng, o.num_stages)
            o.update_bounds((b,))
            e.set(b)
            e.check("bounds updated")
        else:
            c = conditions(rng, o.num_stages)
            o.update_boundary_conditions(c)
            e.conditions += list(c)
            e.check("conditions added")
    return dict(N=N, tr=str(kw["transcription"]), cyc=kw["is_cyclic"], cond=kw["is_condensed"])


def functions(o, x, lam):
    return dict(constraints=o.constraints(x), jacobian=o.jacobian(x), hessian=o.hessian(x, lam, 0.7),
                objective=np.atleast_1d(o.objective(x)), gradient=o.gradient(x), lower=o.lb, upper=o.ub,
                clower=o.cl, cupper=o.cu)


@case(quick=20, thorough=150)
def fresh(rng):
    """After a change of track: the same problem as one constructed with that track."""
    kw, N = settings(rng)
    a = Line(rng)
    o = build(rng, kw, a)
    b = Line(rng, a)
    if rng.integers(2):             # use of the problem before the change
        x = o.get_init_guess()
        o.constraints(x), o.jacobian(x), o.hessian(x, np.ones(o.num_con), 1.0)
    o.set_track(b.file)
    n = build(rng, kw, b)
    x = np.asarray(o.get_init_guess())
    close(x, n.get_init_guess(), "initial guess")
    x = x + rng.normal(size=x.shape) * 0.01
    lam = rng.normal(size=o.num_con)
    want = functions(n, x, lam)
    for k, v in functions(o, x, lam).items():
        close(v, want[k], f"{k} after a change of track", rtol=1e-9)
    for k, (p, q) in dict(jac=(o.jacobianstructure(), n.jacobianstructure()),
                          hess=(o.hessianstructure(), n.hessianstructure())).items():
        equal(np.array(p), np.array(q), f"{k} structure after a change of track")
    return dict(N=N, tr=str(kw["transcription"]), cyc=kw["is_cyclic"], cond=kw["is_condensed"])


@case(quick=20, thorough=150)
def continuity(rng):
    """The equations are those over the distance of the track: zero for the exact solution of constant rates."""
    kw, N = settings(rng)
    kw.update(is_condensed=False, scales=())
    t = Line(rng)
    o = build(rng, kw, Line(rng)) if rng.integers(2) else build(rng, kw, t)
    o.set_track(t.file)
    op = o.dec_var_operator
    d = t.s[-1] * np.asarray(flat_mesh(o))
    x = np.asarray(o.get_init_guess()).copy()
    names = o.model.get_group_names("states")
    for n in names:
        rate, start = rng.normal(), rng.normal()
        x[op.get_var_index_in_dec("states", n)] = start + rate * d
        x[op.get_var_index_in_dec("states_dot", n)] = rate
    for n in o.model.get_group_names("inputs"):
        x[op.get_var_index_in_dec("inputs", n)] = rng.normal(size=o.num_stages)
    c = constraints_of(o)["continuity"].constraints(x) if "continuity" in constraints_of(o) else None
    if c is not None:
        close(c, np.zeros(len(c)), "continuity over the distance of the track", atol=1e-6)
    v = o.objective(x)
    tm = x[op.get_var_index_in_dec("states", "time")]
    steer = x[op.get_var_index_in_dec("inputs", "steer")]
    close(v, tm[-1] - tm[0] + np.mean(steer ** 2), "objective: lap time and the input penalty")
    return dict(N=N, tr=str(kw["transcription"]))

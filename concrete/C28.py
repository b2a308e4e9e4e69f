"""Runtime contract: a changed model parameter reaches every evaluation of the problem."""
import copy
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

import lumos.optimal_control.nlp as nlp
from concrete import toy
from concrete.base import case, close, equal, raises, require, vec
from lumos.models.base import Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io
from lumos.models.composition import ModelMaker
from lumos.models.drone_model import DroneModel
from lumos.models.simple_vehicle_on_track import SimpleVehicleOnTrack
from lumos.optimal_control.config import LoggingConfig
from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP
from lumos.simulations.drone_simulation import DroneSimulation
from lumos.simulations.laptime_simulation import LaptimeSimulation


def again(w, p, **cfg):
    """The problem of w made anew, from a model with parameter p."""
    m = w.cls()
    t = m.get_recursive_params()
    t.set_param("p", p)
    m.set_recursive_params(t)
    c = copy.deepcopy(w.cfg)
    for k, v in cfg.items():
        setattr(c, k, v)
    return FixedMeshOCP(m, c, mesh_scale=w.scale) if w.fixed else ScaledMeshOCP(m, c)


def evaluations(o, x, lag, hessian=True):
    out = dict(constraints=o.constraints(x), jacobian=o.jacobian(x))
    if hessian:
        out["hessian"] = o.hessian(x, lag, 0.7)
    m = o.model
    v = o.dec_var_operator.unflatten_var(x)
    f = m.batched_forward(v.states, v.inputs, o.get_mesh_from_scale(v.mesh_scale) if hasattr(v, "mesh_scale")
                          and not isinstance(o, FixedMeshOCP) else o.get_mesh(), m.get_recursive_params())
    out["forward"] = np.concatenate([np.ravel(f.states_dot), np.ravel(f.outputs)])
    return {k: np.asarray(v) for k, v in out.items()}


def agree(a, b, what):
    for k in b:
        close(a[k], b[k], f"{what}: {k}", rtol=1e-9, atol=1e-9)


def world(rng, backend=None, **kw):
    b = backend or ["custom", "casadi", "custom", "casadi", "custom"][int(rng.integers(5))]
    w = toy.world(rng, condensed=bool(rng.integers(2)), backend=b, states=[("time",), ("q", "time"), ("time", "r")][
        int(rng.integers(3))], **kw)
    w.backend = b
    return w


def point(rng, w):
    x = vec(rng, w.num)
    if not w.fixed:
        x[-1] = float(np.exp(rng.uniform(-1, 1)))
    return x


def change(rng, w, steps):
    for _ in range(steps):
        k = int(rng.integers(5))
        if k == 0:
            raises(KeyError, lambda: w.ocp.modify_model_param("no_such_parameter", 1.0), "an unknown parameter is accepted")
        elif k == 1:
            w.ocp.modify_model_param("unused", float(rng.normal()))
        else:
            w.p = float(rng.normal())
            if rng.integers(3) == 0:      # the same array again, with another number in it
                w.held = getattr(w, "held", np.zeros(()))
                w.held[...] = w.p
                w.ocp.modify_model_param("p", w.held)
            else:
                w.ocp.modify_model_param("p", w.p)
        if rng.integers(2):
            w.ocp.constraints(point(rng, w))
        if rng.integers(3) == 0:
            w.ocp.jacobian(point(rng, w))


def own_params(w, what):
    t = w.model.get_recursive_params()
    close(float(t.get_param("p")), w.p, f"{what}: the model's own parameter")


def same_as_new(rng, w, steps):
    x, lag = point(rng, w), vec(rng, w.ocp.num_con)
    change(rng, w, steps)
    own_params(w, "after the changes")
    got = evaluations(w.ocp, x, lag)
    own_params(w, "after the evaluation")
    agree(got, evaluations(again(w, w.p), x, lag), "problem after changes and new problem")


@case(quick=60)
def histories(rng):
    w = world(rng)
    same_as_new(rng, w, int(rng.integers(0, 6)))
    return dict(N=w.N, backend=w.backend, fixed=w.fixed, condensed=w.ocp.is_condensed)


@case(quick=2, thorough=12)
def jax(rng):
    w = world(rng, "jax")
    x, lag = point(rng, w), vec(rng, w.ocp.num_con)
    w.ocp.constraints(x)
    own_params(w, "after an evaluation")
    same_as_new(rng, w, 2)
    s = {n: 0.5 for n in w.model.get_group_names("states")}
    u = {n: 0.25 for n in w.model.get_group_names("inputs")}
    m = w.cls()
    t = m.get_recursive_params()
    t.set_param("p", w.p)
    m.set_recursive_params(t)
    a, b = (q.forward(states=dict(s), inputs=dict(u)) for q in (w.model, m))
    for n in s:
        close(float(a.states_dot[n]), float(b.states_dot[n]), f"the model itself, after the problem was evaluated: {n}")
    return dict(fixed=w.fixed)


@case(quick=30)
def apart(rng):
    """Problems do not share their parameters, nor do they share them with a tree the caller holds."""
    w = world(rng)
    held = w.model.get_recursive_params()
    p0 = w.p
    other = again(w, w.p)
    x, lag = point(rng, w), vec(rng, w.ocp.num_con)
    before = evaluations(other, x, lag)
    change(rng, w, 3)
    close(float(held.get_param("p")), p0, "a tree taken from the model before the change")
    agree(evaluations(other, x, lag), before, "another problem")
    held.set_param("p", 17.0)
    own_params(w, "after a change of the tree the caller holds")
    agree(evaluations(w.ocp, x, lag), evaluations(again(w, w.p), x, lag), "problem after changes and new problem")


class OneIteration:
    """Stands in for the solver: reports its starting point as its only iteration."""

    def __init__(self, n, m, problem_obj, **kw):
        self.p = problem_obj

    def add_option(self, *a):
        pass

    def solve(self, x, **kw):
        for k in range(2):
            self.p.objective(x.copy())
            self.p.constraints(x.copy())
            self.p.intermediate(0, k, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1)
        return x, {"status": 0, "status_msg": b"", "obj_val": 0.0}


@case(quick=20)
def logs(rng):
    root = tempfile.mkdtemp(prefix="lumver_par_")
    keep = nlp.cyipopt.Problem
    nlp.cyipopt.Problem = OneIteration
    try:
        log = lambda k: LoggingConfig(sim_name=f"s{k}_{rng.integers(1 << 60)}", results_dir=root, log_every_nth_iter=2)
        w = world(rng, logging_config=log(0))
        x = point(rng, w)
        change(rng, w, 3)
        o = again(w, w.p, logging_config=log(1))
        t = []
        for q in (w.ocp, o):
            q.solve(init_guess=x.copy(), print_timing_statistics="no")
            t.append(pd.read_csv(os.path.join(q.logging_dir, "results.csv")))
        require(list(t[0].columns) == list(t[1].columns), "columns of the tables")
        for c in t[0].columns:
            close(t[0][c].values, t[1][c].values, f"column {c} of the logged table", rtol=1e-7, atol=1e-7)
    finally:
        nlp.cyipopt.Problem = keep
        shutil.rmtree(root, ignore_errors=True)
    return dict(backend=w.backend, condensed=w.ocp.is_condensed)


@case(quick=10, thorough=60)
def drone(rng):
    """The initial guess follows the parameter."""
    kw = dict(num_intervals=int(rng.integers(1, 5)), backend="casadi", transcription=["LGR", "Trapezoidal"][int(rng.integers(2))])
    o = DroneSimulation(model_params=DroneModel().get_recursive_default_params(),
                        sim_config=DroneSimulation.get_sim_config(**kw))
    for _ in range(int(rng.integers(1, 4))):
        if rng.integers(2):
            o.get_init_guess()
        g = float(rng.uniform(0, 20))
        o.modify_model_param("gravity", g)
    t = DroneModel().get_recursive_default_params()
    t.set_param("gravity", g)
    n = DroneSimulation(model_params=t, sim_config=DroneSimulation.get_sim_config(**kw))
    close(o.get_init_guess(), n.get_init_guess(), "initial guess")
    x, lag = vec(rng, o.num_dec), vec(rng, o.num_con)
    agree(evaluations(o, x, lag), evaluations(n, x, lag), "problem after changes and new problem")
    return kw


CONFIG = SimpleVehicleOnTrack.get_recursive_default_model_config()


@case(quick=20)
def composite(rng):
    """Submodels of a model with derivatives of its own."""
    depth = int(rng.integers(1, 4))
    made = []

    def build(d):
        below = made[-1].__name__ if d else None

        @model_io(inputs=("a",), outputs=("y",))
        class M(Model):
            @classmethod
            def get_default_submodel_config(cls):
                return {"sub": below} if d else {}

            @classmethod
            def get_default_params(cls):
                return {"k": 1.5 + d}

            def forward(self, inputs):
                v = self._params["k"] * inputs["a"]
                if d:
                    v = v + self.call_submodel("sub", inputs={"a": v + 1}).outputs["y"]
                return ModelReturn(outputs=self.make_outputs_dict(y=v))
        return M

    empty = np.zeros(0, int)
    try:
        for d in range(depth):
            M = build(d)
            M.__name__ = f"Par{os.getpid()}_{rng.integers(1 << 60)}"
            ModelMaker.add_to_registry(M)
            made.append(M)

        @state_space_io(states=("x",), inputs=("u",), outputs=("o",))
        class Top(StateSpaceModel):
            @classmethod
            def get_default_submodel_config(cls):
                return {"sub": made[-1].__name__}

            @classmethod
            def get_default_params(cls):
                return {"k": 0.5}

            def forward(self, states, inputs, mesh=0.0):
                v = self.call_submodel("sub", inputs={"a": states["x"] + self._params["k"] * inputs["u"]}).outputs["y"]
                return StateSpaceModelReturn(states_dot={"x": v}, outputs=self.make_outputs_dict(o=2 * v))

            def _implicit_jac(self, v, mesh, params):
                return np.zeros(0)

            def _implicit_hess(self, v, mult, mesh, params):
                return np.zeros(0)

            def _implicit_jacobianstructure(self):
                return empty, empty

            _implicit_hessianstructure = _implicit_jacobianstructure

        def value(gains, x, u):
            v, out = x + gains[0] * u, 0.0
            for g in gains[1:]:
                v = g * v
                out += v
                v = v + 1
            return out

        o = ScaledMeshOCP(Top(), ScaledMeshOCP.get_sim_config(num_intervals=int(rng.integers(1, 4)), backend="custom",
                                                              transcription="Trapezoidal", is_condensed=bool(rng.integers(2))))
        names = ["sub." * d + "k" for d in range(depth + 1)]
        gains = [0.5] + [1.5 + d for d in reversed(range(depth))]
        S = o.num_stages
        for _ in range(3):
            i = int(rng.integers(depth + 1))
            gains[i] = float(rng.normal())
            o.modify_model_param(names[i], gains[i])
            x, u = rng.normal(size=(S, 1)), rng.normal(size=(S, 1))
            want = np.array([value(gains, a, b) for a, b in zip(x[:, 0], u[:, 0])])
            par = o.model.get_recursive_params()
            r = o.model.batched_forward(x, u, o.get_mesh_from_scale(2.0), par)
            close(np.ravel(r.states_dot), want, f"states_dot after {names[i]} was changed")
            rest = list(gains)
            j = int(rng.integers(depth + 1))
            rest[j] = float(rng.normal())
            t = o.model.get_recursive_params()
            t.set_param(names[j], rest[j])
            want = np.array([value(rest, a, b) for a, b in zip(x[:, 0], u[:, 0])])
            r = o.model.batched_forward(x, u, o.get_mesh_from_scale(2.0), t)
            close(np.asarray(r.outputs)[:, 0], 2 * want, f"outputs with another {names[j]}")
            t.set_param(names[j], gains[j])
            o.model.set_recursive_params(t)
    finally:
        for M in made:
            ModelMaker.remove_from_registry(M)
    return dict(depth=depth)


@case(quick=8, thorough=60)
def nested(rng):
    """Parameters of submodels at any depth."""
    make = lambda t: ScaledMeshOCP(_vehicle(t), ScaledMeshOCP.get_sim_config(
        num_intervals=2, transcription="Trapezoidal", backend="casadi"))
    t = SimpleVehicleOnTrack(model_config=CONFIG).get_recursive_default_params()
    paths = sorted(p for p, v in _leaves(t) if np.ndim(v) == 0 and isinstance(v, (int, float)) and not isinstance(v, bool))
    o = make(copy.deepcopy(t))
    for _ in range(int(rng.integers(1, 4))):
        path = paths[int(rng.integers(len(paths)))]
        v = float(t.get_param(path)) * float(rng.uniform(0.8, 1.25)) + float(rng.uniform(0, 0.1))
        t.set_param(path, v)
        o.modify_model_param(path, v)
    n = make(t)
    got = o.model.get_recursive_params()
    for p in paths:
        close(got.get_param(p), t.get_param(p), f"parameter {p}")
    x = np.abs(rng.normal(size=o.num_dec)) * 0.3 + 1
    lag = rng.normal(size=o.num_con)
    agree(evaluations(o, x, lag), evaluations(n, x, lag), "problem after changes and new problem")
    return dict(path=path)


@case(quick=8, thorough=60)
def laps(rng):
    """The lap time problem: its initial guess follows the parameters too."""
    files = []
    for k in range(2):
        n = int(rng.integers(4, 8))
        t = np.arange(n) / n * 4
        files.append(os.path.abspath(f"par_track{k}.csv"))
        pd.DataFrame({"# x_m": 200 * np.cos(t), "y_m": 200 * np.sin(t) * rng.uniform(0.5, 1),
                      "w_tr_right_m": rng.uniform(3, 6, n), "w_tr_left_m": rng.uniform(3, 6, n)}).to_csv(files[k], index=False)
    kw = dict(num_intervals=int(rng.integers(2, 5)), backend="casadi", boundary_conditions=(),
              transcription=["Trapezoidal", "ForwardEuler"][int(rng.integers(2))], is_condensed=bool(rng.integers(2)))
    make = lambda t, f: LaptimeSimulation(model_params=copy.deepcopy(t), model_config=CONFIG,
                                          sim_config=LaptimeSimulation.get_sim_config(track=f, **kw))
    t = SimpleVehicleOnTrack(model_config=CONFIG).get_recursive_default_params()
    o, file = make(t, files[0]), files[0]
    for _ in range(int(rng.integers(1, 5))):
        if rng.integers(2):
            o.get_init_guess()
        if rng.integers(4) == 0:
            file = files[int(rng.integers(2))]
            o.set_track(file)
        path = ["vehicle.vehicle_mass", "vehicle.gravity", "vehicle.Iz", "vehicle.cog_height"]
        path = [p for p in path if p in dict(_leaves(t))] or sorted(
            p for p, v in _leaves(t) if isinstance(v, float) and v > 0)
        path = path[int(rng.integers(len(path)))]
        v = float(t.get_param(path)) * float(rng.uniform(0.8, 1.25))
        t.set_param(path, v)
        o.modify_model_param(path, v)
    n = make(t, file)
    x = n.get_init_guess()
    close(o.get_init_guess(), x, "initial guess")
    lag = rng.normal(size=o.num_con)
    agree(evaluations(o, x, lag), evaluations(n, x, lag), "problem after changes and new problem")
    return kw


def _vehicle(t):
    return SimpleVehicleOnTrack(model_config=CONFIG, params=t)


def _leaves(t):
    def walk(d, prefix):
        for k, v in d["data"].items():
            yield prefix + k, v
        for k, c in d.get("children", {}).items():
            yield from walk(c, prefix + k + ".")
    return walk(t.to_dict(), "")

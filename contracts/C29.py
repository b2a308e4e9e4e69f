"""C29: the drone model is planar flight under one thrust, and the drone problem is posed on it."""
import types

from contracts.models import *
from contracts.ocp import *
from lumver import symnp
from lumver.seq import NON_NAMES
from lumos.models.drone_model import DroneModel
from lumos.simulations.drone_simulation import DroneSimulation, DroneSimulationConfig
import lumos.simulations.drone_simulation as drone
import numpy as np

NON_NAMES.update(("x", "x_dot", "z", "z_dot", "theta", "f", "omega", "sin_theta"))
STATES = ("x", "x_dot", "z", "z_dot", "theta")
E = lambda t, *k: lift(elem(t, *k))


@goal("equations of motion and outputs")
def motion():
    m = DroneModel()
    g = symbolic_params(m)
    CTX.require("one parameter", set(g) == {"gravity"})
    s = {n: sym(n) for n in m.get_group_names("states")}
    u = {n: sym(n) for n in m.get_group_names("inputs")}
    for rounds in range(2):
        r = m.forward(dict(s), dict(u), sym("mesh"))
        CTX.require("states", set(r.states_dot) == set(s) == set(STATES))
        CTX.require("outputs", set(r.outputs) == {"sin_theta", "f_omega"} == set(m.get_group_names("outputs")))
        acc = u["f"] * M.sin(s["theta"]), u["f"] * M.cos(s["theta"]) - g["gravity"]
        for n, v in (("x", s["x_dot"]), ("x_dot", acc[0]), ("z", s["z_dot"]), ("z_dot", acc[1]), ("theta", u["omega"])):
            CTX.require_eq(n, lift(r.states_dot[n]), v)
        CTX.require_eq("sin_theta", lift(r.outputs["sin_theta"]), M.sin(s["theta"]))
        CTX.require_eq("f_omega", lift(r.outputs["f_omega"]), u["f"] * u["omega"])


@goal("without a thrust the motion is free fall, at hover thrust the drone rests")
def special_cases():
    m = DroneModel()
    g = symbolic_params(m)["gravity"]
    s = {n: sym(n) for n in STATES}
    r = m.forward(dict(s), dict(f=const(0), omega=sym("w"))).states_dot
    CTX.require_eq("no sideways acceleration", lift(r["x_dot"]), const(0))
    CTX.require_eq("fall", lift(r["z_dot"]), -g)
    r = m.forward(dict(s, theta=const(0), x_dot=const(0), z_dot=const(0)), dict(f=g, omega=const(0))).states_dot
    for n in STATES:
        CTX.require_eq("hover " + n, lift(r[n]), const(0))


class Bare(DroneSimulation):
    """The problem without its constraints, objectives and scales, which the initial guess does not use."""

    def nothing(self, *a):
        pass

    _flat_normalized_mesh = property(lambda self: vec("mesh0", self.num_stages))       # C07
    _build_objective = _build_continuity_cons = _build_model_algebra = set_scales = set_cons = nothing


@goal("initial guess: derivatives and outputs are the model's at the guessed states, inputs and mesh")
def guess():
    w = world(False, [2, "M"][CTX.choose(2)], cls=Bare, special=dict(states=list(STATES), inputs=["f", "omega"]))

    def forward(*a):
        w.forward = a
        return types.SimpleNamespace(states_dot=arr("F", w.S, w.n["states"]), con_outputs=arr("CO", w.S, w.n["con_outputs"]))
    w.model.batched_forward = forward
    w.model.make_const_vector = lambda group, value=0.0: const_array(w.n[group], value)
    w.ocp._params = par = object()
    x = w.ocp.get_init_guess()
    shape_is("initial guess", x, w.num)
    s = CTX.index("s", w.S)
    st, inp, mesh, p = w.forward
    CTX.require("parameters of the problem", p is par)
    shape_is("mesh of the model call", mesh, w.S)
    T_ = E(x, w.num - 1)
    CTX.require_eq("mesh of the model call", E(mesh, s), E(w.ocp._flat_normalized_mesh, s) * T_)
    g = ("states", "inputs", "states_dot", "con_outputs")[CTX.choose(4)]
    k = idx("k_" + g, w.n[g])
    got = E(x, s * w.V + w.off[g] + k)
    if g in ("states", "inputs"):
        a = st if g == "states" else inp
        shape_is(f"{g} of the model call", a, w.S, w.n[g])
        CTX.require_eq(f"{g} of the model call", E(a, s, k), got)
    else:
        CTX.require_eq(g, got, read("F" if g == "states_dot" else "CO", [s, k]))


def const_array(n, value):
    return symnp.zeros(n) + value


@goal("total time is the mesh scale")
def total():
    w = world(False, [2, "M"][CTX.choose(2)], cls=DroneSimulation)
    x = vec("x", w.num)
    CTX.require_eq("total time", lift(w.ocp.get_total_time(x)), read("x", [w.num - 1]))


@goal("the problem is posed on the drone model with the given parameters")
def construction():
    made = []
    par, cfg, sim = object(), object(), object()
    keep, init = drone.DroneModel, drone.ScaledMeshOCP.__init__
    model = object()
    drone.DroneModel = lambda model_config={}, params={}: (made.append((model_config, params)), model)[1]
    drone.ScaledMeshOCP.__init__ = lambda self, model, sim_config=None: made.append((model, sim_config))
    try:
        DroneSimulation(model_params=par, model_config=cfg, sim_config=sim)
    finally:
        drone.DroneModel, drone.ScaledMeshOCP.__init__ = keep, init
    CTX.require("model", len(made) == 2 and made[0] == (cfg, par))
    CTX.require("problem", made[1] == (model, sim))


@goal("default settings: rest to rest with a full turn, within bounds that admit it")
def defaults():
    c = DroneSimulation.get_sim_config()
    CTX.require("class", type(c) is DroneSimulationConfig)
    bc = {(b.stage, b.group, b.name): b.value for b in c.boundary_conditions}
    bd = {(b.group, b.name): b.values for b in c.bounds}
    CTX.require("one condition per state and end",
                set(bc) == {(e, "states", n) for e in (0, -1) for n in STATES} and len(bc) == len(c.boundary_conditions))
    for (e, g, n), v in bc.items():
        want = {"z": 5.0, "theta": 2 * np.pi}.get(n, 0.0) if e == -1 else 0.0
        CTX.require(f"{n} at {e}", v == want)
        CTX.require(f"{n} at {e} within its bounds", bd[g, n][0] <= v <= bd[g, n][1])
    CTX.require("bounds", len(bd) == len(c.bounds))
    CTX.require("thrust only upwards", bd["inputs", "f"][0] >= 0)
    CTX.require("positive time", bd["global", "mesh_scale"][0] > 0)
    CTX.require("outputs", tuple(c.con_output_names) == ("sin_theta",))


@canary("sideways acceleration with the cosine must be refuted")
def wrong():
    m = DroneModel()
    symbolic_params(m)
    s = {n: sym(n) for n in STATES}
    r = m.forward(dict(s), dict(f=sym("f"), omega=sym("w"))).states_dot
    CTX.require_eq("x_dot", lift(r["x_dot"]), sym("f") * M.cos(s["theta"]))

"""C28: a changed model parameter reaches every evaluation of the problem, and nothing else changes."""
import logging
import types

import contracts.ocp as ocp_contracts
from contracts.ocp import *
from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
from lumos.models.tree_utils import ParameterTree
import lumos.models.base as base
import lumos.models.drone_model as drone
import lumos.simulations.laptime_simulation as lap
from lumos.simulations.drone_simulation import DroneSimulation
from lumver import symnp
from lumver.seq import NON_NAMES
import lumos.optimal_control.convolution as conv

logging.disable(logging.CRITICAL)
assume_note("The parameter tree is taken by its contract (C12): it holds what was set, refuses unknown paths and "
            "flattens to a vector; a model keeps a copy of the tree it is given (C14).")
assume_note("Any history of changes by induction: every evaluation uses the tree as it is after the last change.")


class Par:
    """Contract of a parameter tree: what it started from and the changes since."""

    def __init__(self, state=("given",)):
        self.state = state

    def set_param(self, path, value):
        if path == "unknown":
            raise KeyError(path)
        self.state = self.state + ((path, value),)

    def copy(self):
        return Par(self.state)

    def tree_ravel(self):
        return ("flat", self.state), None


def seen(p):
    return p.state if isinstance(p, Par) else p


class Unit(ocp_contracts.Unit):
    def mapped_constraints(self, v, mesh, p):
        self.seen = seen(p)
        return super().mapped_constraints(v, mesh, p)

    def mapped_jacobian(self, v, mesh, p):
        self.seen = seen(p)
        return super().mapped_jacobian(v, mesh, p)

    def mapped_hessian(self, v, lag, mesh, p):
        self.seen = seen(p)
        return super().mapped_hessian(v, lag, mesh, p)


class CasUnit(Unit, conv.CasMappedConstraints):
    """A unit problem of compiled functions, which take the flat vector of parameters."""


class Stop(Exception):
    pass


class Model(ocp_contracts.Model):
    def __init__(self, *a):
        super().__init__(*a)
        self.params = Par()

    def get_recursive_params(self):
        return self.params.copy()

    def set_recursive_params(self, p):
        self.params = p.copy()

    def batched_forward(self, states, inputs, mesh, params=None):
        raise Stop(seen(params))


def problem(cas, **cfg):
    keep = ocp_contracts.Unit, ocp_contracts.Model
    ocp_contracts.Unit, ocp_contracts.Model = CasUnit if cas else Unit, Model
    try:
        return world(CTX.choose(2) == 1, 2, orders=False, **cfg)
    finally:
        ocp_contracts.Unit, ocp_contracts.Model = keep


def forwarded(f):
    try:
        f()
    except Stop as e:
        return e.args[0]
    CTX.require("the model is evaluated", False)


def history(w):
    """Up to three changes, one of them refused; the tree that must be in force afterwards."""
    want = ("given",)
    for k in range(CTX.choose(3)):
        w.ocp.modify_model_param(f"path{k}", ("value", k))
        want = want + ((f"path{k}", ("value", k)),)
    if CTX.choose(2):
        expect_raises("unknown parameter", KeyError, w.ocp.modify_model_param, "unknown", 1.0)
    return want


def expect_raises(what, exc, f, *a):
    try:
        f(*a)
    except exc:
        return
    CTX.require(what + " is refused", False)


@goal("constraints, Jacobian and Hessian use the parameters as last changed", timeout=600)
def evaluations():
    cas = CTX.choose(2) == 1
    w = problem(cas)
    want = history(w)
    x = vec("x", w.num)
    k = CTX.choose(3)
    if k == 0:
        w.ocp.constraints(x)
    elif k == 1:
        w.ocp.jacobian(x)
    else:
        w.ocp.hessian(x, vec("lag", w.ocp.num_con), sym("sigma"))
    CTX.require("parameters of the evaluation", w.unit.seen == (("flat", want) if cas else want))
    CTX.require("parameters of the model", w.model.params.state == want)


@goal("in a condensed problem too", timeout=600)
def condensed():
    cas = CTX.choose(2) == 1
    w = problem(cas)
    # the condensed problem keeps its parameterized constraints apart (C10 decides what it makes of them)
    o = w.ocp
    o.is_condensed = True
    o._con_storage = {"model_algebra": o._constraints["model_algebra"], "continuity": o._constraints["continuity"]}
    want = history(w)
    k = CTX.choose(2)
    if k == 0:
        o._con_storage["model_algebra"].constraints(vec("x", w.num))
        CTX.require("parameters of the evaluation", w.unit.seen == (("flat", want) if cas else want))
    elif not w.fixed:
        o._con_storage["model_algebra"].get_csc_jacobian = lambda x: None
        CTX.require("parameters of the forward evaluation", forwarded(lambda: o._condensed_jacobian(vec("x", w.num))) == want)
    CTX.require("parameters of the model", w.model.params.state == want)


@goal("the logged table is computed with the parameters as last changed", timeout=600)
def log():
    w = problem(False)
    want = history(w)
    got = forwarded(lambda: w.ocp._create_result_df(vec("x", w.num), file_path="a file", iter_num=sym("it", "int")))
    CTX.require("parameters of the forward evaluation", got == want)


class BareLap(lap.LaptimeSimulation):
    """The lap time problem without its constraints, objectives and scales, which the initial guess does not use."""

    def nothing(self, *a):
        pass

    _flat_normalized_mesh = property(lambda self: vec("mesh0", self.num_stages))       # C07
    _build_objective = _build_continuity_cons = set_scales = nothing


class BareDrone(DroneSimulation):
    nothing = BareLap.nothing
    _flat_normalized_mesh = BareLap._flat_normalized_mesh
    _build_objective = _build_continuity_cons = set_scales = nothing


class Road:
    """A track, of which only the length matters here (C15, C25)."""
    total_distance = 1

    def at(self, d):
        return symnp.elementwise(lambda e: ufn("road", lift(e)), [d])
    curvature_at = heading_at = left_distance_at = right_distance_at = at


LAP = [list(lap.SimpleVehicleOnTrack.get_direct_group_names(g)) for g in ("states", "inputs")]
NON_NAMES.update(n for l in LAP for n in l)
DRONE = [list(drone.DroneModel.get_direct_group_names(g)) for g in ("states", "inputs")]
NON_NAMES.update(n for l in DRONE for n in l)


@goal("the initial guesses of the lap time and drone problems use the parameters as last changed, however often they are asked for")
def guesses():
    road = CTX.choose(2) == 1
    names_ = LAP if road else DRONE
    keep = ocp_contracts.Model
    ocp_contracts.Model = Model
    try:
        w = world(road, 2, orders=False, cls=BareLap if road else BareDrone,
                  special=dict(states=names_[0], inputs=names_[1]))
    finally:
        ocp_contracts.Model = keep
    if road:
        w.ocp._track = Road()
        w.model.make_vector = lambda group, **kw: symnp.array([kw[n] for n in names_[("states", "inputs").index(group)]])
        w.model.get_var_index = lambda group, name: names_[("states", "inputs").index(group)].index(name)
    else:
        w.model.make_const_vector = lambda group, value=0.0: symnp.zeros(w.n[group]) + value
    seen_ = []

    def forward(states, inputs, mesh, params):
        seen_.append(seen(params))
        return types.SimpleNamespace(states_dot=arr("F", w.S, w.n["states"]), con_outputs=arr("CO", w.S, w.n["con_outputs"]))
    w.model.batched_forward = forward
    want = ("given",)
    for k in range(1 + CTX.choose(2)):
        if CTX.choose(2):
            w.ocp.get_init_guess()
        w.ocp.modify_model_param(f"path{k}", ("value", k))
        want = want + ((f"path{k}", ("value", k)),)
    seen_.clear()
    x = w.ocp.get_init_guess()
    CTX.require("the guess is made with the parameters as last changed", bool(seen_) and seen_[-1] == want)
    s, k = CTX.index("gs", w.S), idx("gk", w.n["states"])
    CTX.require_eq("and its derivatives are those of that evaluation",
                   lift(elem(x, s * w.V + w.off["states_dot"] + k)), read("F", [s, k]))


def real_model():
    """A real state-space model with symbolic names whose forward reads its parameters."""
    n = {g: CTX.size("n_" + g, lo) for g, lo in dict(states=1, inputs=0, outputs=0).items()}

    class M(StateSpaceModel):
        def forward(self, states, inputs, mesh=0.0):
            M.used = dict(self._params)
            raise Stop(M.used)

        @classmethod
        def get_default_params(cls):
            return {"a": sym("a0"), "b": sym("b0")}

        _implicit_jac = _implicit_hess = None

        def _implicit_jacobianstructure(self):
            return vec("r", 1, "int"), vec("c", 1, "int")
        _implicit_hessianstructure = _implicit_jacobianstructure
    state_space_io(states=names("states", n["states"]), inputs=names("inputs", n["inputs"]),
                   outputs=names("outputs", n["outputs"]), con_outputs=SymSeq([]), residuals=SymSeq([]))(M)
    m = M()
    V = n["states"] * 2 + n["inputs"]
    return m, n, V


@goal("evaluating a jax problem with other parameters leaves the model its own")
def own():
    m, n, V = real_model()
    keep = base.JaxMappedConstraints, base.jit, base.vmap
    made = {}
    base.JaxMappedConstraints = lambda **kw: made.update(kw) or types.SimpleNamespace(**kw)
    base.jit = lambda f, **kw: f
    base.vmap = lambda f, **kw: f
    m._model_algebra_jacobianstructure = m._model_algebra_hessianstructure = lambda: None
    try:
        m.make_model_algebra_cons("jax")
        before = {k: m.get_recursive_params().get_param(k) for k in ("a", "b")}
        q = m.get_recursive_params()
        q.set_param("a", sym("other"))
        if CTX.choose(2):
            used = forwarded(lambda: made["constraints"](vec("X", V), sym("mesh"), q))
        else:
            used = forwarded(lambda: m.batched_forward(vec("s", n["states"]), vec("u", n["inputs"]), sym("mesh"), q))
    finally:
        base.JaxMappedConstraints, base.jit, base.vmap = keep
    CTX.require_eq("the evaluation uses the given parameters", lift(used["a"]), sym("other"))
    CTX.require_eq("and the others", lift(used["b"]), lift(before["b"]))
    for k in ("a", "b"):
        CTX.require_eq(f"the model keeps its {k}", lift(m.get_recursive_params().get_param(k)), lift(before[k]))


@canary("an evaluation before the change must be refuted")
def late():
    w = problem(False)
    w.ocp.constraints(vec("x", w.num))
    w.ocp.modify_model_param("p", 1.0)
    CTX.require("parameters", w.unit.seen == w.model.params.state)

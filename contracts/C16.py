"""C16: track-frame kinematics are the change of variables of planar motion, for every state and curvature."""
from contracts.models import *
from specs import vehicle
from lumos.models.base import StateSpaceModelReturn
from lumos.models.kinematics import TrackPosition2D
from lumos.models.simple_vehicle_on_track import SimpleVehicleOnTrack
import lumos.models.aero.aero, lumos.models.tires.pacejka            # noqa: F401, E401


def point(model):
    return ({n: sym(n) for n in model.get_group_names("states")},
            {n: sym(n + "_in") for n in model.get_group_names("inputs")})


@goal("rates per distance and outputs of the track position model")
def rates():
    model = TrackPosition2D()
    s, u = point(model)
    sd, out = vehicle.kinematics(M, s, u)
    ret = model.forward(dict(s), dict(u), sym("mesh"))
    CTX.require("states", set(ret.states_dot) == set(s))
    CTX.require("outputs", set(ret.outputs) == set(model.get_group_names("outputs")))
    for n, v in sd.items():
        CTX.require_eq(n, lift(ret.states_dot[n]), v)
    for n, v in out.items():
        CTX.require_eq(n, lift(ret.outputs[n]), v)


@goal("the motion of the point in the plane is the motion of the body")
def plane():
    """X = line(s) + n normal(s), heading = eta + theta(s), theta' = k: the plane velocity is the body velocity."""
    model = TrackPosition2D()
    s, u = point(model)
    rate = {n: lift(v) for n, v in model.forward(dict(s), dict(u), sym("mesh")).states_dot.items()}
    sdot = 1 / rate["time"]
    k, eta = u["track_curvature"], s["eta"]
    # velocity of the point in the frame (tangent, normal) of the line
    t, n = sdot * (1 - s["n"] * k), rate["n"] * sdot
    c, q = M.cos(eta), M.sin(eta)
    CTX.require_eq("forward velocity", t * c + n * q, u["vx"])
    CTX.require_eq("sideways velocity", -t * q + n * c, u["vy"])
    CTX.require_eq("yaw rate", (rate["eta"] + k) * sdot, u["yaw_rate"])


@goal("a vehicle on the track: every rate is converted to a rate per distance")
def on_track():
    model = SimpleVehicleOnTrack()
    veh = model.get_submodel("vehicle")
    vs, vi = veh.get_group_names("states"), veh.get_group_names("inputs")

    def forward(states, inputs, mesh=0.0):
        CTX.require("vehicle gets its states and inputs", set(states) == set(vs) and set(inputs) == set(vi))
        a = [states[n] for n in vs] + [inputs[n] for n in vi]
        return StateSpaceModelReturn(states_dot={n: ufn(f"veh.{n}", *a) for n in vs},
                                     outputs={n: ufn(f"veh.out.{n}", *a) for n in veh.get_group_names("outputs")})
    veh.forward = forward
    s, u = point(model)
    a = [s[n] for n in vs] + [u[n] for n in vi]
    kin, kout = vehicle.kinematics(M, {n: s[n] for n in ("time", "n", "eta")},
                                   dict(vx=s["vx"], vy=s["vy"], yaw_rate=s["yaw_rate"],
                                        track_curvature=u["track_curvature"], track_heading=u["track_heading"]))
    for rounds in range(2):             # the second call starts from the state the first one left behind
        ret = model.forward(dict(s), dict(u), sym("mesh"))
        CTX.require("states", set(ret.states_dot) == set(s))
        for n, v in kin.items():
            CTX.require_eq(n, lift(ret.states_dot[n]), v)
        for n in vs:
            CTX.require_eq(n, lift(ret.states_dot[n]), ufn(f"veh.{n}", *a) * kin["time"])
        CTX.require("outputs", set(ret.outputs) == set(model.get_group_names("outputs")))
        for n, v in kout.items():
            CTX.require_eq(n, lift(ret.outputs["kinematics." + n]), v)
        for n in veh.get_group_names("outputs"):
            CTX.require_eq(n, lift(ret.outputs["vehicle." + n]), ufn(f"veh.out.{n}", *a))


@canary("lateral rate with the other sign must be refuted")
def wrong():
    model = TrackPosition2D()
    s, u = point(model)
    sd, out = vehicle.kinematics(M, s, u)
    ret = model.forward(dict(s), dict(u), sym("mesh"))
    CTX.require_eq("n", lift(ret.states_dot["n"]), -sd["n"])

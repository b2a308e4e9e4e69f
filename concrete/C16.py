"""Runtime contract: track-frame kinematics are planar motion seen from the centre line."""
import casadi
import numpy as np

import lumos.numpy as lnp
from concrete.base import case, close, require
from lumos.models.composition import ModelMaker
from lumos.models.kinematics import TrackPosition2D
from specs import vehicle


def point(rng):
    while True:
        s = dict(time=float(rng.normal()), n=float(5 * rng.normal()), eta=float(0.6 * rng.normal()))
        u = dict(vx=float(20 * rng.normal()), vy=float(5 * rng.normal()), yaw_rate=float(rng.normal()),
                 track_curvature=float(0.1 * rng.normal()), track_heading=float(3 * rng.normal()))
        if abs(1 - s["n"] * u["track_curvature"]) > 0.05 and \
                abs(u["vx"] * np.cos(s["eta"]) - u["vy"] * np.sin(s["eta"])) > 0.5:
            return s, u


@case(quick=200)
def equations(rng):
    model = TrackPosition2D()
    s, u = point(rng)
    sd, out = vehicle.kinematics(np, s, u)
    names = list(sd) + list(out)
    exp = [*sd.values(), *out.values()]
    ret = model.forward(states=dict(s), inputs=dict(u))
    require(set(ret.states_dot) == set(sd) and set(ret.outputs) == set(out), "names")
    close([{**ret.states_dot, **ret.outputs}[n] for n in names], exp, "rates")
    arr = model.forward_with_arrays(np.array([s[n] for n in ("time", "n", "eta")]),
                                    np.array([u[n] for n in ("vx", "vy", "yaw_rate", "track_curvature", "track_heading")]), 0.0)
    close(arr.states_dot, [sd[n] for n in ("time", "n", "eta")], "rates vector")
    with lnp.use_backend("casadi"):
        S = {k: casadi.SX.sym(k) for k in s}
        U = {k: casadi.SX.sym(k) for k in u}
        ret = model.forward(states=dict(S), inputs=dict(U))
        f = casadi.Function("f", [*S.values(), *U.values()], [{**ret.states_dot, **ret.outputs}[n] for n in names])
    close([float(v) for v in f(*s.values(), *u.values())], exp, "rates (casadi)")
    with lnp.use_backend("jax"):
        ret = model.forward(states=dict(s), inputs=dict(u))
        close([float({**ret.states_dot, **ret.outputs}[n]) for n in names], exp, "rates (jax)")


@case(quick=60)
def inverse_motion(rng):
    """A body moving by its velocities for a short time: its track coordinates change at the model's rates."""
    s, u = point(rng)
    k, h0 = u["track_curvature"], u["track_heading"]
    if abs(k) < 1e-3:
        return
    model = TrackPosition2D()
    # the centre line is a circle of curvature k through the origin with heading h0
    centre = np.array([-np.sin(h0), np.cos(h0)]) / k

    def track(pos, yaw):
        d = (pos - centre) * -np.sign(k)           # points from the centre line's inside ...
        rad = np.hypot(*d)
        n = 1 / k - np.sign(k) * rad
        heading = np.arctan2(d[1], d[0]) - np.pi / 2      # left normal of the line is d / rad
        turn = np.remainder(heading - h0 + np.pi, 2 * np.pi) - np.pi
        return turn / k, n, yaw - h0 - turn
    yaw = h0 + s["eta"]
    pos = s["n"] * np.array([-np.sin(h0), np.cos(h0)])
    if s["n"] * k >= 0.95:
        return                                      # beyond the centre of curvature

    def at(t):
        psi = yaw + u["yaw_rate"] * t
        r = u["yaw_rate"]
        if abs(r) < 1e-9:
            C, S = t * np.cos(yaw), t * np.sin(yaw)
        else:
            C, S = (np.sin(psi) - np.sin(yaw)) / r, (np.cos(yaw) - np.cos(psi)) / r
        return track(pos + np.array([u["vx"] * C - u["vy"] * S, u["vx"] * S + u["vy"] * C]), psi)
    e = 1e-4
    lo, hi = np.array(at(-e)), np.array(at(e))
    close(np.array(at(0.0)), [0.0, s["n"], s["eta"]], "start", atol=1e-6)
    rate = (hi - lo) / (2 * e)
    ret = model.forward(states=dict(s), inputs=dict(u)).states_dot
    sdot = 1 / ret["time"]
    close(np.array([1.0, ret["n"], ret["eta"]]) * sdot, rate, "rates of the moving body", rtol=1e-3, atol=1e-3)


@case(quick=40)
def on_track(rng):
    """The vehicle on the track: kinematics of its own velocities, and its dynamics per distance."""
    model = ModelMaker.make_model_from_name("SimpleVehicleOnTrack")
    alone = ModelMaker.make_model_from_name("SimpleVehicle")
    v = float(rng.uniform(10, 60))
    s = dict(time=float(rng.normal()), n=float(3 * rng.normal()), eta=float(0.2 * rng.normal()), vx=v,
             vy=float(rng.normal()), yaw_rate=float(0.3 * rng.normal()))
    for c in vehicle.CORNERS:
        s["wheel_speed_" + c] = float(v / 0.33 * rng.uniform(0.9, 1.1))
    u = dict(throttle=float(rng.random()), brake=float(rng.random()), steer=float(rng.normal()), ax=float(rng.normal()),
             ay=float(rng.normal()), track_curvature=float(0.02 * rng.normal()), track_heading=float(rng.normal()))
    ret = model.forward(states=dict(s), inputs=dict(u), mesh=float(rng.normal()))
    vs = {k: s[k] for k in alone.get_group_names("states")}
    vr = alone.forward(states=dict(vs), inputs={k: u[k] for k in alone.get_group_names("inputs")})
    sd, out = vehicle.kinematics(np, s, dict(u, **{k: s[k] for k in ("vx", "vy", "yaw_rate")}))
    exp = dict(sd, **{k: x * sd["time"] for k, x in vr.states_dot.items()})
    require(set(ret.states_dot) == set(exp) == set(model.get_group_names("states")), "states")
    for n in exp:
        close(ret.states_dot[n], exp[n], f"rate of {n} per distance")
    want = {"kinematics." + k: x for k, x in out.items()}
    want.update({"vehicle." + k: x for k, x in vr.outputs.items()})
    require(set(ret.outputs) == set(want), f"outputs {set(ret.outputs) ^ set(want)}")
    for n in want:
        close(ret.outputs[n], want[n], f"output {n}")
    require(set(model.get_group_names("residuals")) == {"vehicle.res_ax", "vehicle.res_ay"}, "residual names")

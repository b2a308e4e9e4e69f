"""C17: the vehicle obeys planar rigid-body motion, for every state, input, parameter set, tire and aero model."""
from contracts.models import *
from specs import vehicle
from lumos.models.base import ModelReturn
from lumos.models.vehicles.simple_vehicle import SimpleVehicle
from lumos.models.simple_vehicle_on_track import SimpleVehicleOnTrack
import lumos.models.aero.aero as aero_models



as_r = lambda x: terms.as_real(lift(x))
TIRE = ("Fz", "kappa", "alpha", "vx", "gamma")
AERO = ("front_ride_height", "rear_ride_height", "yaw")
OUT = dict(tire=("Fx", "Fy", "Mx", "My", "Mz"), aero=("Cx", "Cy", "Cz", "Cmx", "Cmy", "Cmz"))


def stub(model, part, names):
    """The real submodel object with its body replaced by an arbitrary function of its declared inputs."""
    sub = model.get_submodel(part)
    outs = sub.get_group_names("outputs")

    def forward(inputs=None, **k):
        CTX.require(f"{part} is called with its declared inputs", set(inputs) == set(sub.get_group_names("inputs")))
        return ModelReturn(outputs={o: ufn(f"{part}.{o}", *[as_r(inputs[n]) for n in names]) for o in outs})
    sub.forward = forward


def make():
    model = SimpleVehicle()
    for c in vehicle.CORNERS:
        stub(model, "tire_" + c, TIRE)
    stub(model, "aero", AERO)
    p = symbolic_params(model)
    s = {n: sym(n) for n in model.get_group_names("states")}
    u = {n: sym(n + "_in") for n in model.get_group_names("inputs")}
    return model, p, s, u


def reference(p, s, u):
    def tire(c, Fz, kappa, alpha, vx, gamma):
        a = [as_r(x) for x in (Fz, kappa, alpha, vx, gamma)]
        return ufn(f"tire_{c}.Fx", *a), ufn(f"tire_{c}.Fy", *a)

    def aero(*x):
        a = [as_r(v) for v in x]
        return ufn("aero.Cx", *a), ufn("aero.Cz", *a)
    return vehicle.vehicle(M, p, s, u, tire, aero)


@goal("accelerations, wheel accelerations, loads, slips and torques of the vehicle", timeout=600)
def equations():
    model, p, s, u = make()
    sd, out = reference(p, s, u)
    ret = model.forward(states=dict(s), inputs=dict(u))
    CTX.require("every state has its derivative", set(ret.states_dot) == set(s))
    for n, v in sd.items():
        CTX.require_eq(f"rate of {n}", lift(ret.states_dot[n]), lift(v))
    for n, v in out.items():
        CTX.require_eq(n, lift(ret.outputs[n]), lift(v))
    CTX.require("outputs are the declared ones", set(ret.outputs) == set(model.get_group_names("outputs")))


@goal("balance of load, force, moment and power", timeout=600)
def balance():
    model, p, s, u = make()
    ret = model.forward(states=dict(s), inputs=dict(u))
    o = {k: lift(v) for k, v in ret.outputs.items()}
    sd = {k: lift(v) for k, v in ret.states_dot.items()}
    q = p["air_density"] * (s["vx"] ** 2 + s["vy"] ** 2) / 2
    Cx, Cz = o["aero.Cx"], o["aero.Cz"]
    m, a, b, L = p["vehicle_mass"], p["cog_to_fa"], p["cog_to_ra"], p["cog_to_fa"] + p["cog_to_ra"]
    tot = lambda n, cs=vehicle.CORNERS: sum((o[f"{n}_tire_{c}"] for c in cs), const(0))
    CTX.require_eq("total load", tot("Fz"), m * p["gravity"] + Cz * q)
    CTX.require_eq("pitch moment", tot("Fz", ("fl", "fr")) * a - tot("Fz", ("rl", "rr")) * b,
                   -u["ax"] * m * p["cog_height"])
    CTX.require_eq("roll moment", (o["Fz_tire_fr"] - o["Fz_tire_fl"]) * p["track_front"] / 2
                   + (o["Fz_tire_rr"] - o["Fz_tire_rl"]) * p["track_rear"] / 2, u["ay"] * m * p["cog_height"])
    CTX.require_eq("drive power", o["drive_torque_rl"] * s["wheel_speed_rl"] + o["drive_torque_rr"] * s["wheel_speed_rr"],
                   u["throttle"] * p["max_power"])
    CTX.require_eq("longitudinal force", (sd["vx"] - s["yaw_rate"] * s["vy"]) * m, tot("Fx") - Cx * q)
    CTX.require_eq("lateral force", (sd["vy"] + s["yaw_rate"] * s["vx"]) * m, tot("Fy"))
    CTX.require_eq("yaw moment", sd["yaw_rate"] * p["Iz"], a * tot("Fy", ("fl", "fr")) - b * tot("Fy", ("rl", "rr"))
                   + (o["Fx_tire_fr"] - o["Fx_tire_fl"]) * p["track_front"] / 2
                   + (o["Fx_tire_rr"] - o["Fx_tire_rl"]) * p["track_rear"] / 2)
    CTX.require_eq("kinetic power", m * (s["vx"] * sd["vx"] + s["vy"] * sd["vy"]),
                   s["vx"] * (tot("Fx") - Cx * q) + s["vy"] * tot("Fy"))


@goal("a mirrored state gives the mirrored response", timeout=600)
def mirror():
    model, p, s, u = make()
    # both tires of an axle are the same model; the aero map is symmetric
    for c in vehicle.CORNERS:
        sub = model.get_submodel("tire_" + c)
        outs = sub.get_group_names("outputs")
        sub.forward = (lambda c, outs: lambda inputs: ModelReturn(outputs={
            o: ufn(f"tire_{c[0]}.{o}", *[as_r(inputs[n]) for n in TIRE]) for o in outs}))(c, outs)
    sub = model.get_submodel("aero")
    aouts = sub.get_group_names("outputs")
    sub.forward = lambda inputs: ModelReturn(outputs={
        o: ufn(f"aero.{o}", as_r(inputs[AERO[0]]), fn("abs", inputs[AERO[1]]), fn("abs", inputs[AERO[2]]),
               as_r(inputs[AERO[1]]) * inputs[AERO[2]]) for o in aouts})
    odd = ("vy", "yaw_rate", "steer", "ay", "res_ay")

    def flip(d):
        out = {}
        for k, v in d.items():
            if "." in k:
                continue
            t = k[:-1] + {"l": "r", "r": "l"}[k[-1]] if k[-3:] in ("_fl", "_fr", "_rl", "_rr") else k
            out[t] = -lift(v) if k in odd or k.startswith(("Fy_tire", "slip_angle")) else lift(v)
        return out
    a = model.forward(states=dict(s), inputs=dict(u))
    b = model.forward(states=flip(s), inputs=flip(u))
    for n, v in flip(a.states_dot).items():
        CTX.require_eq(f"mirrored rate of {n}", lift(b.states_dot[n]), v)
    for n, v in flip(a.outputs).items():
        CTX.require_eq(f"mirrored {n}", lift(b.outputs[n]), v)


@canary("a vehicle whose rear axle pushes the other way must be refuted")
def wrong():
    model, p, s, u = make()
    sd, out = reference(dict(p, cog_to_ra=-p["cog_to_ra"]), s, u)
    ret = model.forward(states=dict(s), inputs=dict(u))
    CTX.require_eq("yaw rate", lift(ret.states_dot["yaw_rate"]), sd["yaw_rate"])

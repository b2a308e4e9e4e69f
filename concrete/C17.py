"""Runtime contract: the vehicle obeys rigid-body motion and the force balance of its parts."""
import casadi
import numpy as np

import lumos.numpy as lnp
from concrete.base import case, close, require
from lumos.models.composition import ModelMaker
from lumos.models.tree_utils import ParameterTree
from lumos.models.vehicles.simple_vehicle import SimpleVehicle
from lumos.models.aero.aero import GPAero
from specs import tires, vehicle
import lumos.models                                             # noqa: F401  (registers the models)

GPAero.num_points = 7


def make(rng, aero=None):
    """A vehicle with its own parameters for every part."""
    tire_kinds = {c: "MF52" if rng.random() < 0.5 else "PerantoniTire" for c in vehicle.CORNERS}
    aero = aero or ("ConstAero", "GPAero", "MLPAero")[int(rng.integers(3))]
    cfg = ModelMaker.make_config("SimpleVehicle")
    try:
        for c, k in tire_kinds.items():
            cfg.replace_subtree(f"tire_{c}", ModelMaker.make_config(k))
        cfg.replace_subtree("aero", ModelMaker.make_config(aero))
    except KeyError:
        raise
    model = ModelMaker.make_model_from_config(cfg)
    params = model.get_recursive_default_params()
    vary(rng, params)
    model.set_recursive_params(params)
    return model, params, tire_kinds, aero


def vary(rng, tree):
    for k, v in tree.data.items():
        if k.startswith("eps") or k in ("some_array",):
            continue
        if np.ndim(v):
            tree.data[k] = 0.3 * rng.normal(size=np.shape(v))
        else:
            tree.data[k] = float(v * rng.uniform(0.7, 1.3)) if v else float(0.05 * rng.normal())
    for k in list(tree.to_dict().get("children") or {}):
        vary(rng, tree.get_child(k))


def point(rng):
    v = float(rng.uniform(8, 80))
    s = dict(vx=v, vy=float(0.1 * v * rng.normal()), yaw_rate=float(0.4 * rng.normal()))
    for c in vehicle.CORNERS:
        s["wheel_speed_" + c] = float(v / 0.33 * rng.uniform(0.9, 1.1))
    neg = lambda: -1.0 if rng.integers(6) == 0 else 1.0
    u = dict(throttle=neg() * float(rng.random()), brake=neg() * float(rng.random()), steer=float(rng.normal()),
             ax=float(6 * rng.normal()), ay=float(6 * rng.normal()))
    return s, u


def aero_of(kind, p):
    p = p.data

    def f(*x):
        x = np.array(x)
        if kind == "ConstAero":
            return p["Cx"], p["Cz"]
        if kind == "GPAero":
            k = np.exp(-np.sum((p["gp_points"] - x) ** 2, axis=1))
            y = p["alpha"] @ k
        else:
            y = x
            for i in range(4):
                y = np.tanh(p[f"weights_layer_{i}"] @ y)
        return y[0], y[2]
    return f


def reference(params, kinds, aero, s, u):
    def tire(c, Fz, kappa, alpha, vx, gamma):
        q = params.get_child("tire_" + c).data
        if kinds[c] == "MF52":
            o = tires.mf52(np, q, Fz, kappa, alpha, vx, gamma)
        else:
            o = tires.perantoni(np, q, Fz, kappa, alpha)
        return o["Fx"], o["Fy"]
    return vehicle.vehicle(np, params.data, s, u, tire, aero_of(aero, params.get_child("aero")))


def compare(got, exp, msg):
    for n in exp:
        close(np.asarray(got[n], float).reshape(()), exp[n], f"{msg}: {n}", rtol=1e-8, atol=1e-6)


@case(quick=60)
def equations(rng):
    model, params, kinds, aero = make(rng)
    for _ in range(2):
        s, u = point(rng)
        sd, out = reference(params, kinds, aero, s, u)
        if not np.all(np.isfinite(list(sd.values()))):
            continue
        ret = model.forward(states=dict(s), inputs=dict(u))
        require(set(ret.states_dot) == set(sd), f"states {sorted(ret.states_dot)}")
        compare(ret.states_dot, sd, f"states_dot ({aero})")
        compare(ret.outputs, out, f"outputs ({aero})")
        # residuals of the implicit form
        arr = model.forward_with_arrays(np.array([s[n] for n in model.get_group_names("states")]),
                                        np.array([u[n] for n in model.get_group_names("inputs")]), 0.0)
        close(arr.residuals, [out["res_ax"], out["res_ay"]], "residuals", atol=1e-6)
        close(arr.states_dot, [sd[n] for n in model.get_group_names("states")], "states_dot vector", atol=1e-6)
        for n in out:
            close(model.get_output(arr.outputs, n), out[n], f"output vector: {n}", atol=1e-6)
        for c in vehicle.CORNERS:
            for n in ("Fx", "Fy"):
                require(f"tire_{c}.{n}" in model.get_group_names("outputs"), "tire outputs are missing")
    return dict(aero=aero, tires=str(sorted(kinds.items())))


@case(quick=12)
def other_backends(rng):
    model, params, kinds, aero = make(rng)
    s, u = point(rng)
    sd, out = reference(params, kinds, aero, s, u)
    with lnp.use_backend("jax"):
        ret = model.forward(states={k: lnp.array(v) for k, v in s.items()}, inputs={k: lnp.array(v) for k, v in u.items()})
        compare(ret.states_dot, sd, f"jax ({aero})")
        compare(ret.outputs, out, f"jax ({aero})")
    with lnp.use_backend("casadi"):
        S = {k: casadi.SX.sym(k) for k in s}
        U = {k: casadi.SX.sym(k) for k in u}
        ret = model.forward(states=dict(S), inputs=dict(U))
        names = list(sd), list(out)
        f = casadi.Function("f", list(S.values()) + list(U.values()),
                            [casadi.SX(ret.states_dot[n]) for n in names[0]] + [casadi.SX(ret.outputs[n]) for n in names[1]])
        vals = [float(v) for v in f(*s.values(), *u.values())]
        compare(dict(zip(names[0], vals)), sd, f"casadi ({aero})")
        compare(dict(zip(names[1], vals[len(names[0]):])), out, f"casadi ({aero})")


@case(quick=60)
def balance(rng):
    """Laws that need no formula: totals of load, force, moment and power; mirrored response."""
    model, params, kinds, aero = make(rng, "ConstAero")
    p = params.data
    s, u = point(rng)
    ret = model.forward(states=dict(s), inputs=dict(u))
    o, sd = ret.outputs, ret.states_dot
    q = p["air_density"] * (s["vx"] ** 2 + s["vy"] ** 2) / 2
    A = params.get_child("aero").data
    close(sum(o[f"Fz_tire_{c}"] for c in vehicle.CORNERS), p["vehicle_mass"] * p["gravity"] + A["Cz"] * q, "total load")
    front = o["Fz_tire_fl"] + o["Fz_tire_fr"]
    L = p["cog_to_fa"] + p["cog_to_ra"]
    close(front, (p["vehicle_mass"] * p["gravity"] + A["Cz"] * q) * p["cog_to_ra"] / L
          - u["ax"] * p["vehicle_mass"] * p["cog_height"] / L, "front axle load")
    close((o["Fz_tire_fr"] - o["Fz_tire_fl"]) * p["track_front"] / 2 + (o["Fz_tire_rr"] - o["Fz_tire_rl"]) * p["track_rear"] / 2,
          u["ay"] * p["vehicle_mass"] * p["cog_height"], "roll moment")
    close(o["drive_torque_rl"] * s["wheel_speed_rl"] + o["drive_torque_rr"] * s["wheel_speed_rr"],
          u["throttle"] * p["max_power"], "drive power", atol=1e-5)
    close((sd["vx"] - s["yaw_rate"] * s["vy"]) * p["vehicle_mass"],
          sum(o[f"Fx_tire_{c}"] for c in vehicle.CORNERS) - A["Cx"] * q, "longitudinal force", atol=1e-5)
    close((sd["vy"] + s["yaw_rate"] * s["vx"]) * p["vehicle_mass"],
          sum(o[f"Fy_tire_{c}"] for c in vehicle.CORNERS), "lateral force", atol=1e-5)
    close(sd["yaw_rate"] * p["Iz"],
          p["cog_to_fa"] * (o["Fy_tire_fl"] + o["Fy_tire_fr"]) - p["cog_to_ra"] * (o["Fy_tire_rl"] + o["Fy_tire_rr"])
          + (o["Fx_tire_fr"] - o["Fx_tire_fl"]) * p["track_front"] / 2
          + (o["Fx_tire_rr"] - o["Fx_tire_rl"]) * p["track_rear"] / 2, "yaw moment", atol=1e-4)
    # mirror: same tires on both sides
    cfg = ModelMaker.make_config("SimpleVehicle")
    model = ModelMaker.make_model_from_config(cfg)
    params = model.get_recursive_default_params()
    vary(rng, params)
    for a in "fr":
        params.get_child(f"tire_{a}r").data.update(params.get_child(f"tire_{a}l").data)
    model.set_recursive_params(params)
    swap = lambda n: n[:-1] + {"l": "r", "r": "l"}[n[-1]]
    odd = ("vy", "yaw_rate", "steer", "ay", "res_ay")

    def mirror(d):
        out = {}
        for k, v in d.items():
            if "." in k:
                continue
            t = k
            if k[-3:] in ("_fl", "_fr", "_rl", "_rr"):
                t = swap(k)
            out[t] = -v if k in odd or k.startswith(("Fy_tire", "slip_angle")) else v
        return out
    a = model.forward(states=dict(s), inputs=dict(u))
    b = model.forward(states=mirror(s), inputs=mirror(u))
    compare(b.states_dot, mirror(a.states_dot), "mirrored states_dot")
    compare(b.outputs, mirror(a.outputs), "mirrored outputs")

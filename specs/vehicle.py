"""Planar vehicle on a track, written from mechanics for any arithmetic.

m offers sin, cos, arctan.  tire(corner, Fz, kappa, alpha, vx, gamma) -> (Fx, Fy) of a left tire in its own
frame; aero(vx, vy, yaw_rate) -> (Cx, Cz)."""

CORNERS = ("fl", "fr", "rl", "rr")


def vehicle(m, p, s, u, tire, aero):
    """states_dot, outputs, residuals of the vehicle at states s and inputs u."""
    vx, vy, r = s["vx"], s["vy"], s["yaw_rate"]
    w = {c: s["wheel_speed_" + c] for c in CORNERS}
    a, b, h = p["cog_to_fa"], p["cog_to_ra"], p["cog_height"]
    mass, R = p["vehicle_mass"], p["rolling_radius"]
    x = dict(fl=a, fr=a, rl=-b, rr=-b)
    half = dict(fl=p["track_front"] / 2, fr=-p["track_front"] / 2, rl=p["track_rear"] / 2, rr=-p["track_rear"] / 2)
    delta = u["steer"] * p["max_steer_angle"]
    angle = dict(fl=delta, fr=delta, rl=0, rr=0)

    # driven rear axle: T_l w_l + T_r w_r = P and T_l - T_r = -kd (w_l - w_r)
    P = u["throttle"] * p["max_power"]
    slip = p["kd"] * (w["rl"] - w["rr"])
    T = dict(fl=0, fr=0, rl=(P - slip * w["rr"]) / (w["rl"] + w["rr"]), rr=(P + slip * w["rl"]) / (w["rl"] + w["rr"]))
    B = p["max_total_brake_torque"] * u["brake"] / 2
    brake = dict(fl=B * p["brake_balance"], fr=B * p["brake_balance"], rl=B * (1 - p["brake_balance"]),
                 rr=B * (1 - p["brake_balance"]))

    Cx, Cz = aero(vx, vy, r)
    q = p["air_density"] * (vx ** 2 + vy ** 2) / 2
    N = mass * p["gravity"] + Cz * q
    share = dict(f=b / (a + b) / 2, r=a / (a + b) / 2)
    roll = dict(f=p["mech_balance"] / p["track_front"], r=(1 - p["mech_balance"]) / p["track_rear"])
    Fz, kappa, alpha, fx, fy, tx = {}, {}, {}, {}, {}, {}
    for c in CORNERS:
        left = 1 if c[1] == "l" else -1
        front = 1 if c[0] == "f" else -1
        Fz[c] = (share[c[0]] * N - left * u["ay"] * mass * h * roll[c[0]]
                 - front * u["ax"] * mass * h / (a + b) / 2)
        # velocity of the contact point in the frame of the wheel
        px, py = vx - r * half[c], vy + r * x[c]
        cs, sn = (m.cos(delta), m.sin(delta)) if c[0] == "f" else (1, 0)
        wx, wy = cs * px + sn * py, -sn * px + cs * py
        kappa[c] = R * w[c] / vx - 1
        alpha[c] = m.arctan(wy / wx)
        Fxw, Fyw = tire(c, Fz[c], kappa[c], left * alpha[c], wx, 0)
        Fyw = left * Fyw                        # a right tire is a mirrored left one
        tx[c] = Fxw
        fx[c], fy[c] = cs * Fxw - sn * Fyw, sn * Fxw + cs * Fyw
    ax = (sum(fx[c] for c in CORNERS) - Cx * q) / mass
    ay = sum(fy[c] for c in CORNERS) / mass
    Mz = sum(x[c] * fy[c] - half[c] * fx[c] for c in CORNERS)
    sd = dict(vx=ax + r * vy, vy=ay - r * vx, yaw_rate=Mz / p["Iz"])
    for c in CORNERS:
        sd["wheel_speed_" + c] = (T[c] - brake[c] - tx[c] * R) / p["wheel_inertia"]
    out = dict(ax=ax, ay=ay, drive_torque_rl=T["rl"], drive_torque_rr=T["rr"],
               res_ax=ax - u["ax"], res_ay=ay - u["ay"])
    for c in CORNERS:
        out.update({f"Fx_tire_{c}": fx[c], f"Fy_tire_{c}": fy[c], f"Fz_tire_{c}": Fz[c],
                    f"slip_ratio_{c}": kappa[c], f"slip_angle_{c}": alpha[c]})
    return sd, out


def kinematics(m, s, u):
    """Rates per distance along the centre line, from the motion of a point (position, heading) beside it."""
    k, n, eta = u["track_curvature"], s["n"], s["eta"]
    forward = u["vx"] * m.cos(eta) - u["vy"] * m.sin(eta)       # velocity along the line
    left = u["vx"] * m.sin(eta) + u["vy"] * m.cos(eta)
    sdot = forward / (1 - n * k)
    sd = dict(time=1 / sdot, n=left / sdot, eta=(u["yaw_rate"] - k * sdot) / sdot)
    return sd, dict(yaw_angle=eta + u["track_heading"], curvature=k)

"""The tire formulae, written from the publications for any arithmetic.

m offers sin, cos, tan, exp, arctan, arccos, sqrt, sign, abs, minimum; numbers may be floats, arrays or
symbolic terms.  p is the parameter dictionary."""
import math


def magic(m, trig, B, C, E, x):
    """D-less magic formula: trig(C arctan(Bx - E(Bx - arctan Bx)))."""
    Bx = B * x
    return trig(C * m.arctan(Bx - E * (Bx - m.arctan(Bx))))


def mf52(m, p, Fz, kappa, alpha, vx, gamma):
    """Steady-state MF 5.2 (Pacejka, Tire and Vehicle Dynamics, 3rd ed., 4.3.2, without turn slip,
    pressure and speed effects; aligning torque with the corrections A54-A60 of Besselink et al.)."""
    P = p.__getitem__
    Fn = P("LFZO") * P("FNOMIN")                                            # 4.E1
    d = (Fz - Fn) / Fn                                                      # 4.E2a
    one = lambda x: m.minimum(x, 1.0)
    # longitudinal, pure slip
    kx = kappa + (P("PHX1") + P("PHX2") * d) * P("LHX")                     # 4.E10, 4.E17
    Cx = P("PCX1") * P("LCX")                                               # 4.E11
    Dx = Fz * (P("PDX1") + P("PDX2") * d) * (1 - P("PDX3") * gamma ** 2) * P("LMUX")    # 4.E12, 4.E13
    Ex = one((P("PEX1") + P("PEX2") * d + P("PEX3") * d ** 2) * (1 - P("PEX4") * m.sign(kx)) * P("LEX"))  # 4.E14
    Kxk = Fz * (P("PKX1") + P("PKX2") * d) * m.exp(P("PKX3") * d) * P("LKX")            # 4.E15
    Bx = Kxk / (Cx * Dx + P("epsilonx") * m.sign(Dx))                       # 4.E16
    SVx = Fz * (P("PVX1") + P("PVX2") * d) * P("LVX") * P("LMUX")           # 4.E18
    Fx0 = Dx * magic(m, m.sin, Bx, Cx, Ex, kx) + SVx                        # 4.E9
    # longitudinal, combined slip
    Bxa = P("RBX1") * m.cos(m.arctan(P("RBX2") * kappa)) * P("LXAL")        # 4.E54
    Exa = one(P("REX1") + P("REX2") * d)                                    # 4.E56
    SHxa = P("RHX1")                                                        # 4.E57
    Gxa = (magic(m, m.cos, Bxa, P("RCX1"), Exa, alpha + SHxa)
           / magic(m, m.cos, Bxa, P("RCX1"), Exa, SHxa))                    # 4.E51 - 4.E53
    Fx = Gxa * Fx0                                                          # 4.E50
    # lateral, pure slip
    Kya = (P("PKY1") * Fn * (1 - P("PKY3") * m.abs(gamma))
           * m.sin(2 * m.arctan(Fz / Fn / P("PKY2"))) * P("LKY"))           # 4.E25
    SVyg = Fz * (P("PVY3") + P("PVY4") * d) * gamma * P("LMUY")             # 4.E28
    SVy = Fz * (P("PVY1") + P("PVY2") * d) * P("LVY") * P("LMUY") + SVyg    # 4.E29
    SHy = (P("PHY1") + P("PHY2") * d) * P("LHY") + P("PHY3") * gamma        # MF-Tyre equation manual
    ay = alpha + SHy                                                        # 4.E20
    Cy = P("PCY1") * P("LCY")                                               # 4.E21
    muy = (P("PDY1") + P("PDY2") * d) * (1 - P("PDY3") * gamma ** 2) * P("LMUY")        # 4.E23
    Dy = muy * Fz                                                           # 4.E22
    Ey = one((P("PEY1") + P("PEY2") * d) * (1 - (P("PEY3") + P("PEY4") * gamma) * m.sign(ay)) * P("LEY"))  # 4.E24
    By = Kya / (Cy * Dy + P("epsilony") * m.sign(Dy))                       # 4.E26
    Fy0 = Dy * magic(m, m.sin, By, Cy, Ey, ay) + SVy                        # 4.E19
    # lateral, combined slip
    DVyk = (muy * Fz * (P("RVY1") + P("RVY2") * d + P("RVY3") * gamma)
            * m.cos(m.arctan(P("RVY4") * alpha)))                           # 4.E67
    SVyk = DVyk * m.sin(P("RVY5") * m.arctan(P("RVY6") * kappa)) * P("LVYKA")           # 4.E66
    SHyk = P("RHY1") + P("RHY2") * d                                        # 4.E65
    Eyk = one(P("REY1") + P("REY2") * d)                                    # 4.E64
    Byk = P("RBY1") * m.cos(m.arctan(P("RBY2") * (alpha - P("RBY3")))) * P("LYKA")      # 4.E62
    Gyk = (magic(m, m.cos, Byk, P("RCY1"), Eyk, kappa + SHyk)
           / magic(m, m.cos, Byk, P("RCY1"), Eyk, SHyk))                    # 4.E59 - 4.E61
    Fy = Gyk * Fy0 + SVyk                                                   # 4.E58
    # moments
    R0, F0 = P("UNLOADED_RADIUS"), P("FNOMIN")
    Mx = R0 * Fz * P("LMX") * (P("QSX1") * P("LVMX") - P("QSX2") * gamma + P("QSX3") * Fy / F0)
    v = vx / P("LONGVL")
    My = -R0 * Fz * P("LMY") * (P("QSY1") + P("QSY2") * Fx / F0 + P("QSY3") * v + P("QSY4") * v ** 4)
    Kp = Kya + P("epsilonk") * m.sign(Kya)                                  # 4.E39
    ar = alpha + SHy + SVy / Kp                                             # 4.E37, 4.E38
    at = alpha + P("QHZ1") + P("QHZ2") * d + (P("QHZ3") + P("QHZ4") * d) * gamma        # 4.E34, 4.E35
    Bt = ((P("QBZ1") + P("QBZ2") * d + P("QBZ3") * d ** 2) * (1 + P("QBZ4") * gamma + P("QBZ5") * m.abs(gamma))
          * P("LKY") / P("LMUY"))                                           # A58
    Ct = P("QCZ1")                                                          # 4.E41
    Dt = ((P("QDZ1") + P("QDZ2") * d) * (1 + P("QDZ3") * gamma + P("QDZ4") * gamma ** 2)
          * Fz * (R0 / Fn) * P("LTR"))                                      # A60
    Et = ((P("QEZ1") + P("QEZ2") * d + P("QEZ3") * d ** 2)
          * (1 + (P("QEZ4") + P("QEZ5") * gamma) * (2 / m.pi) * m.arctan(Bt * Ct * at)))   # 4.E44
    Dr = (Fz * R0 * ((P("QDZ6") + P("QDZ7") * d) * P("LRES") + (P("QDZ8") + P("QDZ9") * d) * gamma)
          * P("LMUY") * m.sign(vx) * m.cos(alpha))                          # 4.E47
    Br = P("QBZ9") * P("LKY") / P("LMUY") + P("QBZ10") * By * Cy            # 4.E45
    eq = lambda a: m.arctan(m.sqrt(m.tan(a) ** 2 + (Kxk / Kp) ** 2 * kappa ** 2)) * m.sign(a)   # A54, A55
    Vc = m.sqrt(vx ** 2 + (m.tan(alpha) * vx) ** 2)
    cosa = m.cos(m.arccos(vx / (Vc + P("epsilonv"))))                       # 4.E6
    t = P("LFZO") * Dt * magic(m, m.cos, Bt, Ct, Et, eq(at)) * cosa         # 4.E73
    Mzr = Dr * m.cos(m.arctan(Br * eq(ar)))                                 # 4.E75 (Cr = 1, 4.E46)
    s = R0 * (P("SSZ1") + P("SSZ2") * Fy / F0 + (P("SSZ3") + P("SSZ4") * d) * gamma) * P("LS")  # A56
    Mz = -t * (Fy - SVyk) + Mzr + s * Fx                                    # 4.E71, 4.E72
    return dict(Fx=Fx, Fy=Fy, Mx=Mx, My=My, Mz=Mz, Kxk=Kxk, Gxa=Gxa, Kya=Kya, Gyk=Gyk,
                GSum=m.sqrt(Gyk ** 2 + Gxa ** 2))


def perantoni(m, p, Fz, kappa, alpha):
    """Perantoni and Limebeer, Optimal control for a Formula One car with variable parameters, appendix
    A (with the ISO signs, and 1e-6 added under the root of the combined slip)."""
    P = p.__getitem__
    at = lambda a, b: P(a) + (Fz - P("Fz1")) * (P(b) - P(a)) / (P("Fz2") - P("Fz1"))
    k = kappa / at("kappa1", "kappa2")
    a = alpha / at("alpha1", "alpha2")
    rho = m.sqrt(a ** 2 + k ** 2 + 1e-6)
    mu = lambda q, Q: q * m.sin(Q * m.arctan(m.pi / (2 * m.arctan(Q)) * rho))
    Fx = mu(at("mux1", "mux2"), P("Qx")) * Fz * k / rho
    Fy = -mu(at("muy1", "muy2"), P("Qy")) * Fz * a / rho
    return dict(Fx=Fx, Fy=Fy, Mx=0.0, My=0.0, Mz=0.0)

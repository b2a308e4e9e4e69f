"""C18: the tire models compute the published formulae, for every slip, load, camber and parameter set."""
import math

from contracts.models import *
from specs import tires
from lumos.models.tires.pacejka import MF52
from lumos.models.tires.perantoni import PerantoniTire
from lumos.models.tree_utils import ParameterTree


def tire(cls, **kw):
    model = cls(**kw)
    p = symbolic_params(model)
    return model, p


def inputs():
    return {n: sym(n) for n in ("Fz", "kappa", "alpha", "vx", "gamma")}


def compare(model, u, exp):
    ret = model.forward(dict(u))
    CTX.require("outputs are the declared ones", set(ret.outputs) == set(model.get_group_names("outputs")))
    for n, v in exp.items():
        CTX.require_eq(n, lift(ret.outputs[n]), lift(v))


@goal("MF 5.2 with moments equals the published formula", timeout=600)
def mf52_full():
    model, p = tire(MF52, opt_mode=False)
    u = inputs()
    compare(model, u, tires.mf52(M, p, **u))


@goal("MF 5.2 in optimisation mode: the same forces, moments are zero", timeout=600)
def mf52_opt():
    model, p = tire(MF52)
    u = inputs()
    e = tires.mf52(M, p, **u)
    e.update(Mx=const(0), My=const(0), Mz=const(0))
    compare(model, u, e)


@goal("Perantoni tire equals the published formula", timeout=600)
def perantoni():
    model, p = tire(PerantoniTire)
    u = inputs()
    compare(model, u, tires.perantoni(M, p, u["Fz"], u["kappa"], u["alpha"]))


@goal("zero slip gives zero lateral force for symmetric parameters; mirrored slip gives mirrored force", timeout=600)
def symmetry():
    for cls, drop in ((MF52, ("PHY1", "PHY2", "PHY3", "PVY1", "PVY2", "PVY3", "PVY4", "RVY1", "RVY2", "RVY3",
                              "RHX1", "RHY1", "RHY2", "RBY3", "PEY3", "PEY4")), (PerantoniTire, ())):
        model, p = tire(cls)
        p.update({k: const(0) for k in drop})
        model._params = dict(p)
        u = dict(inputs(), gamma=const(0))
        f = lambda **k: {n: lift(v) for n, v in model.forward(dict(u, **k)).outputs.items()}
        a, b = f(), f(alpha=-u["alpha"])
        CTX.require_eq("Fy is odd in the slip angle", b["Fy"], -a["Fy"])
        CTX.require_eq("Fx is even in the slip angle", b["Fx"], a["Fx"])
        CTX.require_eq("no lateral force without a slip angle", f(alpha=const(0))["Fy"], const(0))


@canary("a tire without the load shift must be refuted")
def wrong():
    model, p = tire(PerantoniTire)
    u = inputs()
    e = tires.perantoni(M, dict(p, Fz1=const(0)), u["Fz"], u["kappa"], u["alpha"])
    CTX.require_eq("Fx", lift(model.forward(dict(u)).outputs["Fx"]), e["Fx"])

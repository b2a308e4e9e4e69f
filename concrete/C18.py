"""Runtime contract: tire forces and moments are those of the published formula."""
import os

import casadi
import numpy as np

import lumos.numpy as lnp
from concrete.base import case, close, require
from lumos.models.tires.pacejka import MF52
from lumos.models.tires.perantoni import PerantoniTire
from lumos.models.tires.utils import create_params_from_tir_file, read_tir_file
from lumos.models.tree_utils import ParameterTree
from specs import tires


def params_of(rng, cls, spread=0.3):
    p = cls.get_default_params()
    for k, v in p.items():
        if k.startswith("eps"):
            continue
        p[k] = float(v * np.exp(spread * rng.normal()))
        if v == 0.0:
            p[k] = float(0.1 * rng.normal())
        elif k.startswith(("P", "Q", "R", "S")) and k not in ("PCX1", "PCY1", "RCX1", "RCY1") and rng.random() < 0.1:
            p[k] = -p[k] if k[:3] not in ("PDX", "PDY", "PKX", "PKY") else p[k]
    return p


def slips(rng, p):
    nominal = p.get("FNOMIN", p.get("Fz1"))
    return dict(Fz=float(nominal * rng.uniform(0.05, 2.5)), kappa=float(0.3 * rng.normal()),
                alpha=float(0.3 * rng.normal()), vx=float(rng.uniform(1, 80)),
                gamma=float(0.1 * rng.normal()))


def backends(rng, model, x, names):
    """The outputs under every backend."""
    yield "numpy", model.forward(dict(x)).outputs
    with lnp.use_backend("jax"):
        yield "jax", model.forward({k: lnp.array(v) for k, v in x.items()}).outputs
    with lnp.use_backend("casadi"):
        sym = {k: casadi.SX.sym(k) for k in x}
        out = model.forward(dict(sym)).outputs
        f = casadi.Function("f", list(sym.values()), [casadi.SX(out[n]) for n in names])
        vals = f(*x.values())
        yield "casadi", {n: float(v) for n, v in zip(names, vals)}


def compare(got, exp, names, msg, scale=None):
    for n in names:
        close(np.asarray(got[n], float).reshape(()), exp[n], f"{msg}: {n}", rtol=1e-9,
              atol=1e-8 * max(1.0, abs(exp["Fx"]), abs(exp["Fy"])))


@case(quick=150)
def magic_formula(rng):
    p = params_of(rng, MF52)
    opt = bool(rng.integers(2))
    model = MF52(params=ParameterTree(data=p), opt_mode=opt)
    names = model.get_group_names("outputs")
    require(sorted(names) == sorted(["Fx", "Fy", "Mx", "My", "Mz", "Kxk", "Gxa", "Kya", "Gyk", "GSum"]), f"outputs {names}")
    for _ in range(3):
        x = slips(rng, p)
        exp = tires.mf52(np, p, **x)
        if opt:
            exp.update(Mx=0.0, My=0.0, Mz=0.0)
        compare(model.forward(dict(x)).outputs, exp, names, f"opt_mode {opt}, {x}")
    for backend, got in backends(rng, model, x, names):
        compare(got, exp, names, f"{backend}, opt_mode {opt}")
    # parameters passed at the call replace the stored ones
    q = params_of(rng, MF52)
    exp = tires.mf52(np, q, **x)
    if opt:
        exp.update(Mx=0.0, My=0.0, Mz=0.0)
    compare(model.apply_and_forward(dict(x), ParameterTree(data=q)).outputs, exp, names, "new parameters")
    return dict(opt=opt)


@case(quick=100)
def default_parameters(rng):
    """A model keeps the defaults for the parameters which are not given."""
    for cls, spec in ((MF52, tires.mf52), (PerantoniTire, None)):
        p = cls.get_default_params()
        some = {k: float(v * rng.uniform(0.8, 1.2)) for k, v in p.items() if rng.random() < 0.2 and not k.startswith("eps")}
        full = dict(p, **some)
        x = slips(rng, p)
        model = cls(params=ParameterTree(data=full))
        if cls is MF52:
            exp = tires.mf52(np, full, **x)
            exp.update(Mx=0.0, My=0.0, Mz=0.0)
        else:
            exp = tires.perantoni(np, full, x["Fz"], x["kappa"], x["alpha"])
        compare(model.forward(dict(x)).outputs, exp, list(exp), cls.__name__)


@case(quick=100)
def quadratic_peak(rng):
    p = params_of(rng, PerantoniTire, 0.15)
    if abs(p["Fz2"] - p["Fz1"]) < 500:
        p["Fz2"] = p["Fz1"] + 2000.0
    model = PerantoniTire(params=ParameterTree(data=p))
    names = model.get_group_names("outputs")
    for k in range(4):
        x = slips(rng, p)
        if k == 3:                      # the formula has no case for the load
            x["Fz"] = -0.2 * x["Fz"] * int(rng.integers(4) > 0)
        exp = tires.perantoni(np, p, x["Fz"], x["kappa"], x["alpha"])
        compare(model.forward(dict(x)).outputs, exp, names, f"{x}")
    for backend, got in backends(rng, model, x, names):
        compare(got, exp, names, backend)
    # mirrored slip, mirrored force
    for s, flip in (("alpha", "Fy"), ("kappa", "Fx")):
        y = dict(x)
        y[s] = -y[s]
        a, b = model.forward(dict(x)).outputs, model.forward(y).outputs
        for n in ("Fx", "Fy"):
            close(b[n], -a[n] if n == flip else a[n], f"{s} mirrored: {n}")
        z = dict(x)
        z[s] = 0.0
        close(model.forward(z).outputs[flip], 0.0, f"{flip} at {s} = 0")


def symmetric(p):
    """Without conicity and ply steer: odd in (alpha, gamma)."""
    q = dict(p)
    for k in ("PHY1", "PHY2", "PVY1", "PVY2", "PEY3", "RBY3", "RVY1", "RVY2", "RHX1", "QHZ1", "QHZ2", "QSX1",
              "QDZ6", "QDZ7", "QDZ3", "QBZ4", "QEZ4", "SSZ1"):
        q[k] = 0.0
    return q


@case(quick=100)
def symmetry(rng):
    p = symmetric(params_of(rng, MF52))
    model = MF52(params=ParameterTree(data=p), opt_mode=False)
    x = slips(rng, p)
    y = dict(x, alpha=-x["alpha"], gamma=-x["gamma"])
    a, b = model.forward(dict(x)).outputs, model.forward(dict(y)).outputs
    for n in a:
        close(b[n], -a[n] if n in ("Fy", "Mx", "Mz") else a[n], f"mirrored {n}", atol=1e-6)
    z = dict(x, alpha=0.0, gamma=0.0)
    out = model.forward(dict(z)).outputs
    for n in ("Fy", "Mx", "Mz"):
        close(out[n], 0.0, f"{n} of the straight running symmetric tire")


@case(quick=40)
def tire_files(rng):
    """A tire file gives exactly its numeric entries."""
    names = [n for n in MF52.get_default_params() if not n.startswith("eps")]
    want, lines = {}, []
    for k in rng.permutation(len(names)):
        n = names[int(k)]
        v = float(np.round(rng.normal() * 10.0 ** int(rng.integers(-6, 5)), 8))
        text = [repr(v), f"{v:.6e}", f"{v:+f}"][int(rng.integers(3))]
        want[n] = float(text)
        comment = ["", "$a comment", "  $with a value = 3.0", "$ a $ b"][int(rng.integers(4))]
        lines.append(f"{n}{' ' * int(rng.integers(0, 9))}={' ' * int(rng.integers(0, 4))}{text}{' ' * int(rng.integers(3))}{comment}")
        if rng.random() < 0.2:
            lines.append(["[SECTION]", "$-------- a title", "", "FILE_TYPE  = 'tir'", "SIDE = 'left'  $left, right"][int(rng.integers(5))])
    path = os.path.abspath("generated.tir")
    with open(path, "w") as f:
        f.write("\n".join(lines) + ("\n" if rng.integers(2) else ""))
    got = read_tir_file(path)
    require(got == want, f"parameters {set(got.items()) ^ set(want.items())}")
    full = create_params_from_tir_file(path)
    eps = {k: v for k, v in MF52.get_default_params().items() if k.startswith("eps")}
    require(full == dict(want, **eps), f"completed parameters {set(full.items()) ^ set(dict(want, **eps).items())}")
    os.remove(path)
    return dict(n=len(want))

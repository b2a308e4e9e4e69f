"""Runtime contract: aerodynamic maps, on every backend."""
import casadi
import numpy as np

import lumos.numpy as lnp
from concrete.base import case, close, require
from lumos.models import ml
from lumos.models.aero.aero import ConstAero, GPAero, MLPAero
from lumos.models.tree_utils import ParameterTree


def gp(p, x):
    return np.array([sum(a[k] * np.exp(-np.sum((p["gp_points"][k] - x) ** 2)) for k in range(len(p["gp_points"])))
                     for a in p["alpha"]])


def mlp(ws, x):
    for w in ws:
        x = np.tanh(np.asarray(w) @ x)
    return x


def on_all(f, x, exp, msg):
    """f(vector) on numpy, jax and casadi."""
    with lnp.use_backend("numpy"):
        close(np.asarray(f(np.array(x))), exp, f"{msg} (numpy)")
    with lnp.use_backend("jax"):
        close(np.asarray(f(lnp.array(x))), exp, f"{msg} (jax)")
    with lnp.use_backend("casadi"):
        s = casadi.MX.sym("x", len(x))
        r = casadi.Function("f", [s], [f(s)])(x)
    close(np.array(r).ravel(), np.ravel(exp), f"{msg} (casadi)")


@case(quick=30)
def functions(rng):
    n, d, o = (int(v) for v in rng.integers(1, 6, 3))
    x = rng.normal(size=d)
    p = dict(gp_points=rng.normal(size=(n, d)), alpha=rng.normal(size=(o, n)))
    on_all(lambda v: ml.gp(v, p["gp_points"], p["alpha"]), x, gp(p, x), f"gp n={n} d={d} o={o}")
    far = dict(gp_points=x + p["gp_points"] + 5.0 * np.sqrt(d), alpha=p["alpha"] * np.exp(25.0 * d * d))
    on_all(lambda v: ml.gp(v, far["gp_points"], far["alpha"]), x, gp(far, x), f"gp of far points n={n} d={d} o={o}")
    a = p["alpha"][0]             # weights of one output as a vector
    on_all(lambda v: ml.gp(v, p["gp_points"], a[None]), x, gp(p, x)[:1], "gp of one output")
    close(np.asarray(ml.gp(x, p["gp_points"], a)), gp(p, x)[0], "gp of one output, weights as a vector")
    dims = [d] + [int(v) for v in rng.integers(1, 6, int(rng.choice([0, 1, 2, 3, 4, 9, 12, 15])))]
    ws = [rng.normal(size=(b, a)) for a, b in zip(dims, dims[1:])]
    on_all(lambda v: ml.mlp(v, ws), x, mlp(ws, x), f"mlp {dims}")


@case(quick=40)
def models(rng):
    cls = (ConstAero, GPAero, MLPAero)[int(rng.integers(3))]
    sub = cls
    if cls is GPAero:
        sub = type("GPAero", (GPAero,), dict(num_points=int(rng.integers(1, 8))))
    if cls is MLPAero:
        sub = type("MLPAero", (MLPAero,), dict(num_layers=int(rng.choice([1, 2, 3, 4, 9, 10, 13])), layer_dim=int(rng.integers(1, 7))))
    model = sub()
    names = model.get_group_names("inputs")
    params = model.get_recursive_default_params()
    for k, v in params.data.items():
        params.data[k] = rng.normal(size=np.shape(v)) if np.ndim(v) else float(rng.normal()) * int(rng.integers(3) > 0)
    model.set_recursive_params(params)
    x = {n: float(rng.normal()) for n in names}
    v = np.array([x[n] for n in names])
    p = params.data
    if cls is ConstAero:
        exp = np.array([p[n] for n in ("Cx", "Cy", "Cz")])
    elif cls is GPAero:
        exp = gp(p, v)
    else:
        ws = [w for k, w in p.items() if k.startswith("weights_layer")]
        require(len(ws) == sub.num_layers + 1, f"{len(ws)} weight matrices for {sub.num_layers} hidden layers")
        exp = mlp(ws, v)
    keys = list(names)
    rng.shuffle(keys)
    for backend in ("numpy", "jax"):
        with lnp.use_backend(backend):
            out = model.forward({k: x[k] for k in keys}).outputs
        require(set(out) == {"Cx", "Cy", "Cz"}, "outputs")
        close([float(out[n]) for n in ("Cx", "Cy", "Cz")], exp, f"{cls.__name__} ({backend})")
    with lnp.use_backend("casadi"):
        s = {k: casadi.SX.sym(k) for k in names}
        out = model.forward({k: s[k] for k in keys}).outputs
        f = casadi.Function("f", [s[k] for k in names], [casadi.SX(out[n]) for n in ("Cx", "Cy", "Cz")])
    close([float(r) for r in f(*v)], exp, f"{cls.__name__} (casadi)")
    close(model.forward_with_arrays(v).outputs, exp, f"{cls.__name__} as arrays")
    return dict(model=cls.__name__)

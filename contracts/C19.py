"""C19: the aerodynamic models compute their formula for every input, parameter set and size."""
from contracts.models import *
from lumver import symnp
from lumver.seq import SymSeq
import lumos.models.ml as ml
from lumos.models.aero.aero import ConstAero, GPAero, MLPAero


def point(model):
    names = model.get_group_names("inputs")
    return names, {n: sym(n) for n in names}


@goal("Gaussian process: any number of samples, inputs and outputs")
def gp():
    n, d, o = CTX.size("n", 1), CTX.size("d", 1), CTX.size("o", 1)
    x, pts, alpha = vec("x", d), arr("pts", n, d), arr("alpha", o, n)
    r = ml.gp(x, pts, alpha)
    shape_is("coefficients", r, o)
    i = idx("i", o)
    exp = ssum(n, lambda k: read("alpha", [i, k]) * fn("exp", -ssum(
        d, lambda j: (read("pts", [k, j]) - read("x", [j])) ** 2)))
    CTX.require_eq("coefficient", elem(r, i), exp)


@goal("neural network: any layer sizes, up to three layers")
def mlp():
    depth = CTX.choose(4)
    dims = [CTX.size(f"d{k}", 1) for k in range(depth + 1)]
    ws = [arr(f"W{k}", dims[k + 1], dims[k]) for k in range(depth)]
    r = ml.mlp(vec("x", dims[0]), ws)
    shape_is("output", r, dims[-1])

    def y(k, i):
        if k == 0:
            return read("x", [i])
        return fn("tanh", ssum(dims[k - 1], lambda j: read(f"W{k - 1}", [i, j]) * y(k - 1, j)))
    i = idx("i", dims[-1])
    CTX.require_eq("output", elem(r, i), y(depth, i))


@goal("constant coefficients")
def const_aero():
    model = ConstAero()
    p = symbolic_params(model)
    names, u = point(model)
    out = model.forward(dict(u)).outputs
    CTX.require("outputs", set(out) == set(model.get_group_names("outputs")))
    for n in ("Cx", "Cy", "Cz"):
        CTX.require_eq(n, lift(out[n]), p[n])


@goal("Gaussian process model: inputs in declared order, coefficients under their names")
def gp_aero():
    model = GPAero()
    names, u = point(model)
    outs = model.get_group_names("outputs")
    n = CTX.size("n", 1)
    model._params = dict(gp_points=arr("pts", n, len(names)), alpha=arr("alpha", len(outs), n))
    out = model.forward({k: u[k] for k in reversed(names)}).outputs
    CTX.require("outputs", set(out) == set(outs))
    for i, o in enumerate(outs):
        exp = ssum(n, lambda k: read("alpha", [i, k]) * fn("exp", -sum(
            ((read("pts", [k, j]) - u[v]) ** 2 for j, v in enumerate(names)), const(0))))
        CTX.require_eq(o, lift(out[o]), exp)


@goal("neural network model: layers in order, inputs in declared order, coefficients under their names")
def mlp_aero():
    model = MLPAero()
    names, u = point(model)
    outs = model.get_group_names("outputs")
    a, b = CTX.size("a", 1), CTX.size("b", 1)
    dims = [len(names), a, b, len(outs)]
    model._params = {"air_density": sym("rho"), **{f"weights_layer_{k}": arr(f"W{k}", dims[k + 1], dims[k])
                                                   for k in range(3)}}
    out = model.forward({k: u[k] for k in reversed(names)}).outputs
    CTX.require("outputs", set(out) == set(outs))

    def y(k, i):
        if k == 0:
            return u[names[int(i)]]
        n = dims[k - 1]
        f = lambda j: read(f"W{k - 1}", [i, j]) * y(k - 1, j)
        return fn("tanh", sum((f(j) for j in range(n)), const(0)) if isinstance(n, int) else ssum(n, f))
    for i, o in enumerate(outs):
        CTX.require_eq(o, lift(out[o]), y(3, i))


@goal("default parameters have the shapes of the formula")
def shapes():
    for cls in (GPAero, MLPAero):
        model = cls()
        ni, no = len(model.get_group_names("inputs")), len(model.get_group_names("outputs"))
        p = cls.get_default_params()
        if cls is GPAero:
            CTX.require("samples", np.shape(p["gp_points"])[1] == ni and
                        np.shape(p["alpha"]) == (no, np.shape(p["gp_points"])[0]))
        else:
            ws = [v for k, v in p.items() if k.startswith("weights_layer")]
            dims = [ni] + [np.shape(w)[0] for w in ws]
            CTX.require("layers", dims[-1] == no and all(np.shape(w)[1] == d for w, d in zip(ws, dims)))


@canary("a kernel without the square must be refuted")
def wrong():
    n, d = CTX.size("n", 1), CTX.size("d", 1)
    r = ml.gp(vec("x", d), arr("pts", n, d), arr("alpha", const(1), n))
    CTX.require_eq("coefficient", elem(r, const(0)), ssum(n, lambda k: read("alpha", [const(0), k]) * fn("exp", -ssum(
        d, lambda j: (read("pts", [k, j]) - read("x", [j]))))))

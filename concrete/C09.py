"""Runtime contract: cyclic constraints."""
import numpy as np

from concrete.access import constraints_of
from concrete.base import case, require, close, equal, raises, twice, vec
from concrete import toy


def expected_rows(w):
    """(group, position) of every cyclic variable, states first."""
    out = []
    for g in ("states", "inputs"):
        for k, n in enumerate(w.model.get_group_names(g)):
            if f"{g}.{n}" not in w.noncyc:
                out.append((g, k))
    return out


@case(quick=120)
def rows(rng):
    w = toy.world(rng, cyclic=True, condensed=bool(rng.integers(4) == 0) and False,
                  backend=["custom", "casadi"][int(rng.integers(8) == 0)])
    ocp = w.ocp
    exp = expected_rows(w)
    m = len(exp)
    con = constraints_of(ocp)["cyclic"]
    require(con.num_con == m, f"{con.num_con} cyclic constraints, expected {m} (excluded: {w.noncyc})")
    D0 = np.zeros((m, w.num))
    for r, (g, k) in enumerate(exp):
        D0[r, w.off[g] + k] += 1
        D0[r, (w.S - 1) * w.V + w.off[g] + k] -= 1
    for _ in range(2):
        x = vec(rng, w.num) * 10 ** rng.uniform(-2, 2)
        close(twice(rng, con.constraints, x), D0 @ x, "cyclic constraint values")
        r, c = con.jacobianstructure()
        v = twice(rng, con.jacobian, x)
        require(np.shape(v) == np.shape(r) == np.shape(c), "Jacobian structure and values differ in size")
        close(toy.dense(r, c, v, D0.shape), D0, "cyclic Jacobian")
        hr, hc = con.hessianstructure()
        hv = twice(rng, con.hessian, x, rng.normal(size=m))
        require(np.size(hr) == np.size(hc) == np.size(hv), "Hessian structure and values differ in size")
        close(toy.dense(hr, hc, hv, (w.num, w.num)), np.zeros((w.num, w.num)), "cyclic Hessian")
    # the rows of the whole problem
    x = vec(rng, w.num)
    xs, s = x, None
    if rng.integers(2):
        sc = np.exp(rng.uniform(-1, 1, w.num))
        con.set_input_scales(sc)
        cs = np.exp(rng.uniform(-1, 1, m))
        con.set_con_scales(cs)
        close(twice(rng, con.constraints, x), D0 @ (x * sc) / cs, "scaled cyclic constraint values")
        r, c = con.jacobianstructure()
        close(toy.dense(r, c, twice(rng, con.jacobian, x), D0.shape), D0 * sc / cs[:, None], "scaled cyclic Jacobian")
        s = sc
    full = ocp.constraints(x)
    require(len(full) == ocp.num_con == sum(q.num_con for q in constraints_of(ocp).values()), "number of constraints")
    require(np.shape(ocp.cl) == np.shape(ocp.cu) == np.shape(full) and not np.any(ocp.cl) and not np.any(ocp.cu),
            "constraint bounds are not zero")
    return dict(fixed=w.fixed, tr=str(w.tr), m=m, ex=len(w.noncyc), scaled=s is not None)


@case(quick=6)
def long(rng):
    """Many stages."""
    w = toy.world(rng, cyclic=True, N=int(rng.integers(60, 150)), sizes=(int(rng.integers(1, 3)), 1, 0))
    con = constraints_of(w.ocp)["cyclic"]
    x = rng.normal(size=w.num)
    v = x[:w.S * w.V].reshape(w.S, w.V)
    exp = [v[0, w.off[g] + k] - v[-1, w.off[g] + k] for g, k in expected_rows(w)]
    close(con.constraints(x), np.array(exp), "cyclic constraint values")
    r, c = con.jacobianstructure()
    ends = sorted([k * w.V * (w.S - 1) + w.off[g] + j for g, j in expected_rows(w) for k in (0, 1)])
    require(sorted(int(i) for i in c) == ends, "columns of the cyclic Jacobian")
    return dict(S=w.S)


@case(quick=60)
def acyclic(rng):
    w = toy.world(rng, cyclic=False)
    require(not any(isinstance(k, str) and "cyclic" in k for k in constraints_of(w.ocp)),
            "an acyclic problem has cyclic constraints")
    return dict(fixed=w.fixed)


@case(quick=60)
def unknown(rng):
    w = toy.world(rng, cyclic=True)
    names = w.model
    ok = [f"{g}.{n}" for g in ("states", "inputs") for n in names.get_group_names(g)]
    bad = ["states.nope", "inputs.nope", "nope", "outputs.nope", "states." + names.get_group_names("states")[0] + "x",
           "states_dot." + names.get_group_names("states")[0], names.get_group_names("states")[0], "",
           "inputs." + names.get_group_names("states")[0]]
    b = bad[int(rng.integers(len(bad)))]
    ex = list(w.noncyc)
    ex.insert(int(rng.integers(len(ex) + 1)), b)
    import dataclasses
    cfg = dataclasses.replace(w.cfg, non_cyclic_vars=ex)
    mk = (lambda: toy.FixedMeshOCP(w.cls(), cfg, mesh_scale=1.0)) if w.fixed else (
        lambda: toy.ScaledMeshOCP(w.cls(), cfg))
    raises(ValueError, mk, f"unknown variable {b!r} accepted as non cyclic; cyclic variables: {ok}")
    equal(np.array(cfg.non_cyclic_vars), np.array(ex), "the caller's list was modified")
    return dict(b=b)

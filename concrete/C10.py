"""Runtime contract: the condensed problem is the full problem with the state derivatives eliminated."""
import copy
import dataclasses

import numpy as np

from concrete.access import constraints_of
from concrete.base import case, require, close, equal, raises, twice, vec
from concrete import toy


def model_rows(w, x):
    """Per stage: state derivatives of the model, remaining residual rows."""
    v = np.asarray(x)[:w.S * w.V].reshape(w.S, w.V)
    mesh = toy.stage_mesh(w) * toy.scale_of(w, x)
    off = w.off["states_dot"]
    ns = w.n["states"]
    xd, rest = [], []
    for s in range(w.S):
        u = v[s].copy()
        u[off:off + ns] = 0
        r = w.model.full_val(u, mesh[s], w.p)
        xd.append(r[:ns])
        rest.append(r[ns:])
    return np.array(xd), np.array(rest)


def eliminated(w, x):
    """x with its state derivatives replaced by the model's."""
    xd, rest = model_rows(w, x)
    y = np.array(x, float)
    a = y[:w.S * w.V].reshape(w.S, w.V)
    a[:, w.off["states_dot"]:w.off["states_dot"] + w.n["states"]] = xd
    return y, rest


def expected(w, x):
    y, rest = eliminated(w, x)
    return np.concatenate([toy.cont(w, y), rest.ravel()])


def jac_oracle(w, x):
    """Exact Jacobian from the model's exact derivatives (chain rule written out)."""
    S, V, ns = w.S, w.V, w.n["states"]
    v = np.asarray(x)[:S * V].reshape(S, V)
    scale = toy.scale_of(w, x)
    mesh = toy.stage_mesh(w) * scale
    off = w.off["states_dot"]
    Jf, Jr = [], []
    for s in range(S):
        u = v[s].copy()
        u[off:off + ns] = 0
        J = w.model.full_jac(u, mesh[s], w.p)
        J = np.array(J)
        J[:, off:off + ns] = 0
        Jf.append(J[:ns])
        Jr.append(J[ns:])
    xd, _ = model_rows(w, x)
    M1 = w.M - 1
    D = np.zeros((w.N * M1 * ns + S * (Jr[0].shape[0]), w.num))
    r = 0
    for i in range(w.N):
        for l in range(M1):
            for j in range(ns):
                for k in range(w.M):
                    s = i * M1 + k
                    D[r, s * V + w.off["states"] + j] += w.A[l, k]
                    D[r, s * V:(s + 1) * V] -= w.h[i] * scale * w.B[l, k] * Jf[s][j]
                    if not w.fixed:
                        D[r, -1] -= w.h[i] * w.B[l, k] * xd[s][j]
                r += 1
    for s in range(S):
        m = Jr[s].shape[0]
        D[r:r + m, s * V:(s + 1) * V] = Jr[s]
        r += m
    return D


def hess_oracle(w, x, mult):
    S, V, ns = w.S, w.V, w.n["states"]
    scale = toy.scale_of(w, x)
    v = np.asarray(x)[:S * V].reshape(S, V)
    mesh = toy.stage_mesh(w) * scale
    M1 = w.M - 1
    nc = w.N * M1 * ns
    lc = mult[:nc].reshape(w.N, M1, ns)
    lr = mult[nc:].reshape(S, -1)
    mu = np.zeros((S, ns))           # weight of f_s
    nu = np.zeros((S, ns))           # its derivative by the scale
    for i in range(w.N):
        for l in range(M1):
            for k in range(w.M):
                mu[i * M1 + k] -= w.h[i] * scale * w.B[l, k] * lc[i, l]
                nu[i * M1 + k] -= w.h[i] * w.B[l, k] * lc[i, l]
    H = np.zeros((w.num, w.num))
    off = w.off["states_dot"]
    for s in range(S):
        u = v[s].copy()
        u[off:off + ns] = 0
        sl = slice(s * V, (s + 1) * V)
        H[sl, sl] += w.model.full_hess(u, np.concatenate([mu[s], lr[s]]), mesh[s], w.p)
        if not w.fixed:
            J = np.array(w.model.full_jac(u, mesh[s], w.p))
            J[:, off:off + ns] = 0
            H[sl, -1] += nu[s] @ J[:ns]
            H[-1, sl] += nu[s] @ J[:ns]
    return H


def probe(rng, w, scaled=True, skip_scale=False):
    ocp = w.ocp
    con = constraints_of(ocp)["model_algebra"]
    ns = w.n["states"]
    m = w.N * (w.M - 1) * ns + w.S * (w.model.num_implicit_res - ns)
    require(con.num_con == m, f"{con.num_con} condensed constraints, expected {m}")
    require(set(constraints_of(ocp)) == {"model_algebra"} | ({"cyclic"} if w.cyclic else set()),
            f"components of the condensed problem: {sorted(constraints_of(ocp))}")
    sc, cs = np.ones(w.num), np.ones(m)
    if scaled and rng.integers(2):
        sc, cs = np.exp(rng.uniform(-1, 1, w.num)), np.exp(rng.uniform(-1, 1, m))
    con.set_input_scales(sc)
    con.set_con_scales(cs)
    x = vec(rng, w.num)
    if not w.fixed:
        x[-1] = np.exp(rng.uniform(-1, 1))
    x0 = x.copy()
    u = x * sc
    close(twice(rng, con.constraints, x), expected(w, u) / cs, "condensed constraints")
    r, c = con.jacobianstructure()
    v = twice(rng, con.jacobian, x)
    require(np.size(r) == np.size(c) == np.size(v), "Jacobian values and structure differ in size")
    D = jac_oracle(w, u) * sc / cs[:, None]
    cut_j = (lambda M: M[:, :-1]) if skip_scale else (lambda M: M)
    close(cut_j(toy.dense(r, c, v, (m, w.num))), cut_j(D), "condensed Jacobian", rtol=1e-7, atol=1e-7)
    mult = vec(rng, m)
    hr, hc = con.hessianstructure()
    hv = twice(rng, con.hessian, x, mult)
    require(np.size(hr) == np.size(hc) == np.size(hv), "Hessian values and structure differ in size")
    got = toy.dense(hr, hc, hv, (w.num, w.num))
    # only the upper triangle counts (C04)
    H = hess_oracle(w, u, mult / cs) * np.outer(sc, sc)
    cut_h = (lambda M: M[:-1, :-1]) if skip_scale else (lambda M: M)
    close(cut_h(np.triu(got)), cut_h(np.triu(H)), "condensed Hessian (upper triangle)", rtol=1e-7, atol=1e-7)
    equal(x, x0, "the evaluation changed its argument")
    # no dependence on the state derivatives
    y = x.copy()
    a = y[:w.S * w.V].reshape(w.S, w.V)
    a[:, w.off["states_dot"]:w.off["states_dot"] + ns] = rng.normal(size=(w.S, ns)) * 10
    close(con.constraints(y), con.constraints(x), "the constraints depend on the state derivatives")
    close(con.jacobian(y), v, "the Jacobian depends on the state derivatives", rtol=1e-7, atol=1e-7)
    close(con.hessian(y, mult), hv, "the Hessian depends on the state derivatives", rtol=1e-7, atol=1e-7)
    idx = (np.arange(w.S)[:, None] * w.V + w.off["states_dot"] + np.arange(ns)).ravel()
    require(np.all(ocp.lb[idx] == 0) and np.all(ocp.ub[idx] == 0), "state derivatives are not fixed to zero")


@case(quick=60)
def fixed(rng):
    w = toy.world(rng, fixed=True, condensed=True)
    for _ in range(2):
        probe(rng, w)
    if rng.integers(2):       # another mesh scale
        w.scale = float(np.exp(rng.uniform(-1, 1)))
        w.ocp.set_mesh_scale(w.scale)
        probe(rng, w)
    return dict(tr=str(w.tr), N=w.N, cyclic=w.cyclic)


@case(quick=50)
def free(rng):
    w = toy.world(rng, fixed=False, condensed=True, backend=["casadi", "custom"][int(rng.integers(2))])
    for _ in range(2):
        probe(rng, w)
    return dict(tr=str(w.tr), N=w.N, cyclic=w.cyclic, backend=w.cfg.backend)


@case(quick=30)
def free_with_mesh(rng):
    """A model that depends on the mesh, on a free mesh: everything but the derivatives by the mesh scale."""
    w = toy.world(rng, fixed=False, condensed=True, mesh="always", backend=["casadi", "custom"][int(rng.integers(2))])
    probe(rng, w, skip_scale=True)
    return dict(tr=str(w.tr), N=w.N, backend=w.cfg.backend)


@case(quick=15)
def casadi(rng):
    w = toy.world(rng, fixed=True, condensed=True, backend="casadi")
    probe(rng, w)
    return dict(tr=str(w.tr), N=w.N)


@case(quick=40)
def same_as_full(rng):
    """Against the uncondensed problem over the same model and settings."""
    seed = int(rng.integers(2 ** 31))
    mk = lambda c: toy.world(np.random.default_rng(seed), fixed=bool(seed % 2), condensed=c, backend="casadi" if (
        seed % 2 == 0 or seed % 3 == 0) else "custom")
    a, b = mk(False), mk(True)
    x = vec(rng, a.num)
    if not a.fixed:
        x[-1] = 1.7
    y, _ = eliminated(a, x)
    ns, m = a.n["states"], a.model.num_implicit_res
    alg = np.reshape(constraints_of(a.ocp)["model_algebra"].constraints(y), (a.S, m))
    close(alg[:, :ns], np.zeros((a.S, ns)), "state equations at the eliminated point")
    exp = np.concatenate([constraints_of(a.ocp)["continuity"].constraints(y), alg[:, ns:].ravel()])
    close(constraints_of(b.ocp)["model_algebra"].constraints(x), exp, "condensed constraints against the full problem")
    return dict(fixed=a.fixed, N=a.N)


@case(quick=60)
def configuration(rng):
    """Building the problem leaves the configuration alone, also for problems built from it afterwards."""
    w = toy.world(rng, cyclic=False)
    n = w.model.get_group_names("states")[0]
    b = tuple(toy.BoundConfig("states", n, (-1.0, float(k))) for k in range(int(rng.integers(3))))
    fixed = rng.integers(3) == 0        # a bound on a state derivative says nothing in a condensed problem
    if fixed:
        b = b + (toy.BoundConfig("states_dot", n, (-2.0, 3.0)),)
    cfg = dataclasses.replace(w.cfg, is_condensed=True, backend="custom" if w.fixed else "casadi", bounds=b)
    before = copy.deepcopy(cfg)
    mk = (lambda c: toy.FixedMeshOCP(w.cls(), c, mesh_scale=1.0)) if w.fixed else (lambda c: toy.ScaledMeshOCP(w.cls(), c))
    ocp = mk(cfg)
    for f in dataclasses.fields(cfg):
        a, c = getattr(before, f.name), getattr(cfg, f.name)
        if isinstance(a, np.ndarray):
            equal(c, a, f"configuration field {f.name} changed")
        else:
            require(a == c, f"building the problem changed the configuration field {f.name}: {c}")
    full = mk(dataclasses.replace(cfg, is_condensed=False))
    idx = (np.arange(w.S)[:, None] * w.V + w.off["states_dot"] + np.arange(w.n["states"])).ravel()
    require(fixed or np.all(np.isinf(full.lb[idx])) and np.all(np.isinf(full.ub[idx])),
            "a full problem from the same configuration has fixed state derivatives")
    require(np.all(ocp.lb[idx] == 0) and np.all(ocp.ub[idx] == 0), "state derivatives are not fixed to zero")
    return dict(fixed=w.fixed)


@case(quick=30)
def parameters(rng):
    """Changing a model parameter reaches the condensed problem."""
    w = toy.world(rng, condensed=True, backend="casadi", fixed=bool(rng.integers(2)))
    p = float(rng.normal())
    w.ocp.modify_model_param("p", p)
    w.p = p
    probe(rng, w)
    return dict(fixed=w.fixed)

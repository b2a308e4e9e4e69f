"""Runtime contract: the stage-wise stack equals a loop over the stages."""
import numpy as np

import casadi
import jax.numpy as jnp

from concrete.base import case, require, close, equal, relaid, memo, raises, twice, vec
from concrete import toy
from concrete.access import constraints_of
from concrete.gen import make
from lumos.optimal_control.convolution import ConvConstraints
from lumos.models.tree_utils import ParameterTree
from lumos.optimal_control.nlp import CasMappedConstraints, JaxMappedConstraints, MappedConstraints
from lumos.optimal_control.utils import batch_conv1d, create_offset_structure, stack_and_increment


@case(quick=300)
def windows(rng):
    st = int(rng.integers(1, 5))
    w = st + int(rng.integers(0, st + 1))
    B = int(rng.integers(1, 6))
    shp = tuple(int(k) for k in rng.integers(1, 4, size=int(rng.integers(0, 3))))
    x = rng.normal(size=((B - 1) * st + w,) + shp)
    y = relaid(rng, x)
    got = batch_conv1d(y, w, st)
    equal(y, x, 'the sequence was modified')
    equal(got, np.stack([x[b * st:b * st + w] for b in range(B)]), "windows")
    if st > 1:
        y = rng.normal(size=((B - 1) * st + w + int(rng.integers(1, st)),) + shp)
        raises(ValueError, lambda: batch_conv1d(y, w, st), "a length that does not divide was accepted")
    return dict(stride=st, width=w, batch=B, shape=shp)


@case(quick=300)
def structures(rng):
    n, B = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    ro, co = int(rng.integers(0, 9)), int(rng.integers(0, 9))
    if rng.integers(4) == 0:            # a large problem
        ro, co = (int(10 ** rng.uniform(3, 6)) for _ in range(2))
    r, c = rng.integers(0, 9, n), rng.integers(0, 9, n)
    r0, c0 = r.copy(), c.copy()
    R, C = create_offset_structure(r, c, ro, co, B)
    equal(r, r0, "the caller's base rows after the call")
    equal(c, c0, "the caller's base columns after the call")
    equal(R, np.concatenate([r + b * ro for b in range(B)]), "rows")
    equal(C, np.concatenate([c + b * co for b in range(B)]), "columns")
    shp = tuple(int(k) for k in rng.integers(1, 4, size=int(rng.integers(1, 4))))
    x = rng.integers(0, 99, shp)
    ax = int(rng.integers(-1, len(shp) + 1))
    inc = int(rng.integers(-5, 9)) if rng.integers(4) else int(10 ** rng.uniform(3, 6))
    y = stack_and_increment(x, ax, B, inc)
    equal(stack_and_increment(relaid(rng, x), ax, B, inc), y, 'the same values in another memory relaid')
    equal(np.moveaxis(y, ax, 0), np.stack([x + k * inc for k in range(B)]), "stack and increment")
    return dict(n=n, blocks=B, axis=ax, shape=shp)


@case(quick=150)
def stages(rng):
    op, io, sizes, groups, glob, N, M, S, V, off = make(rng)
    m = int(rng.integers(1, 4))
    A = rng.normal(size=(m, V, V))
    A = A + A.transpose(0, 2, 1)
    b = rng.normal(size=(m, V))
    par = dict(k=float(rng.normal()))
    d = rng.normal(size=(m, V))
    f = lambda v, t, p: 0.5 * np.einsum("rij,i,j->r", A, v, v) * p["k"] + (b @ v) * t + t * t + d @ v ** 3 / 6
    J = lambda v, t, p: A @ v * p["k"] + b * t + d * v ** 2 / 2
    H = lambda v, l, t, p: np.einsum("r,rij->ij", l, A) * p["k"] + np.diag(l @ d * v)
    two = rng.integers(2) == 1
    if two:
        jr, jc = np.nonzero(np.ones((m, V)))
        q = rng.permutation(len(jr))
        js = (jr[q], jc[q])
        hr, hc = np.nonzero(np.ones((V, V)))
        q = rng.permutation(len(hr))
        hs = (hr[q], hc[q])
        keep = [k.copy() for k in js + hs]
        unit = MappedConstraints(V, m, f, lambda *a: J(*a)[tuple(keep[:2])], lambda *a: H(*a)[tuple(keep[2:])], js, hs)
    else:
        unit = MappedConstraints(V, m, f, J, H)
    mesh = rng.random(S)
    scale_of = lambda x: 2.0 + np.tanh(x[-1])
    if rng.integers(2):
        ConvConstraints(unit, op, mesh, scale_of, par)      # building is pure: the unit problem can be used again
    con = ConvConstraints(unit, op, mesh, scale_of, par)
    if rng.integers(2):
        par = dict(k=float(rng.normal()))
        con.set_params(par)
    n = op.num_dec
    s, k = np.ones(n), np.ones(S * m)
    if rng.integers(2):
        s = np.exp(rng.uniform(-1, 1, n))
        con.set_input_scales(s)
    if rng.integers(2):
        k = np.exp(rng.uniform(-1, 1, S * m))
        con.set_con_scales(k)
    require(con.num_in == n and con.num_con == S * m, "sizes")
    xh = vec(rng, n)
    x = xh * s
    X = x[:S * V].reshape(S, V)
    t = mesh * scale_of(x)
    close(twice(rng, con.constraints, xh), np.concatenate([f(X[i], t[i], par) for i in range(S)]) / k, "constraints")
    D = np.zeros((S * m, n))
    for i in range(S):
        D[i * m:(i + 1) * m, i * V:(i + 1) * V] = J(X[i], t[i], par)
    close(con.get_csc_jacobian(xh).toarray(), D * s / k[:, None], "Jacobian")
    lam = vec(rng, S * m)
    twice(rng, con.jacobian, xh)
    twice(rng, con.hessian, xh, lam)
    D = np.zeros((n, n))
    for i in range(S):
        D[i * V:(i + 1) * V, i * V:(i + 1) * V] = H(X[i], (lam / k)[i * m:(i + 1) * m], t[i], par)
    close(con.get_csc_hessian(xh, lam).toarray(), D * s * s[:, None], "Hessian")
    return dict(S=S, V=V, m=m, globals=glob, sparse=two)


@case(quick=30)
def backends(rng):
    """Units mapped by jax (dense or with a structure) and by casadi (with casadi's own sparsity)."""
    op, io, sizes, groups, glob, N, M, S, V, off = make(rng)
    m = int(rng.integers(1, 4))
    mask = rng.random((m, V)) < 0.6
    mask[:, int(rng.integers(V))] = True
    w = rng.normal(size=(m, V)) * mask
    k0 = float(rng.normal())
    f = lambda v, t, k: np.sin(w @ v + t) * k
    J = lambda v, t, k: (np.cos(w @ v + t) * k)[:, None] * w
    H = lambda v, l, t, k: np.einsum("r,ri,rj->ij", -l * np.sin(w @ v + t) * k, w, w)
    jr, jc = np.nonzero(mask)
    hr, hc = np.nonzero(np.einsum("ri,rj->ij", mask * 1, mask * 1))
    kind = int(rng.integers(3))
    if kind < 2:
        q, z = rng.permutation(len(jr)), rng.permutation(len(hr))
        st = [None, None]
        if kind:
            st = [None if rng.random() < 0.2 else (jr[q], jc[q]), None if rng.random() < 0.2 else (hr[z], hc[z])]
        unit = JaxMappedConstraints(V, m, lambda v, t, p: jnp.sin(w @ v + t) * p.get_param("k"), *st)
    else:
        v, t, p = casadi.SX.sym("v", V), casadi.SX.sym("t"), casadi.SX.sym("p", 1)
        l = casadi.SX.sym("l", m)
        W = casadi.SX(casadi.DM(w))
        W = casadi.sparsify(W)
        c = casadi.sin(casadi.mtimes(W, v) + t) * p
        jac = casadi.jacobian(c, v)
        hes = casadi.hessian(casadi.dot(l, c), v)[0]
        order = lambda M: tuple(np.array(a) for a in M.sparsity().get_triplet())
        unit = CasMappedConstraints(V, m, casadi.Function("c", [v, t, p], [c]), casadi.Function("j", [v, t, p], [jac]),
                                    casadi.Function("h", [v, l, t, p], [hes]), order(jac), order(hes))
    mesh = rng.random(S)
    scale_of = lambda x: 2.0 + np.tanh(x[-1])
    con = ConvConstraints(unit, op, mesh, scale_of, ParameterTree({"k": k0}))
    if rng.integers(2):
        k0 = float(rng.normal())
        con.set_params(ParameterTree({"k": k0}))
    n = op.num_dec
    s = np.exp(rng.uniform(-1, 1, n))
    con.set_input_scales(s)
    xh, lam = vec(rng, n), vec(rng, S * m)
    x = xh * s
    X, t = x[:S * V].reshape(S, V), mesh * scale_of(x)
    close(con.constraints(xh), np.concatenate([f(X[i], t[i], k0) for i in range(S)]), "constraints")
    D, E = np.zeros((S * m, n)), np.zeros((n, n))
    for i in range(S):
        c = slice(i * V, (i + 1) * V)
        D[i * m:(i + 1) * m, c] = J(X[i], t[i], k0)
        E[c, c] = H(X[i], lam[i * m:(i + 1) * m], t[i], k0)
    close(con.get_csc_jacobian(xh).toarray(), D * s, "Jacobian")
    close(con.get_csc_hessian(xh, lam).toarray(), E * s * s[:, None], "Hessian")
    return dict(S=S, V=V, kind=["jax, dense", "jax, structure", "casadi"][kind])


@case(quick=40)
def problems(rng):
    """The model equations of a whole problem, also for models that depend on the mesh on a free mesh."""
    w = toy.world(rng, mesh="always", condensed=False, backend=["custom", "custom", "casadi"][int(rng.integers(3))])
    con = constraints_of(w.ocp)["model_algebra"]
    m = w.model.num_implicit_res
    s, cs = np.exp(rng.uniform(-1, 1, w.num)), np.exp(rng.uniform(-1, 1, m * w.S))
    con.set_input_scales(s)
    con.set_con_scales(cs)
    xh, lam = vec(rng, w.num), vec(rng, m * w.S)
    if not w.fixed:
        xh[-1] = float(np.exp(rng.uniform(-1, 1)))
    x = xh * s
    X, t = x[:w.S * w.V].reshape(w.S, w.V), toy.stage_mesh(w) * toy.scale_of(w, x)
    want = np.concatenate([w.model.full_val(X[i], t[i], w.p) for i in range(w.S)])
    close(con.constraints(xh), want / cs, "model equations")
    D, E = np.zeros((w.S * m, w.S * w.V)), np.zeros((w.S * w.V, w.S * w.V))
    for i in range(w.S):
        c = slice(i * w.V, (i + 1) * w.V)
        D[i * m:(i + 1) * m, c] = w.model.full_jac(X[i], t[i], w.p)
        E[c, c] = w.model.full_hess(X[i], lam[i * m:(i + 1) * m] / cs[i * m:(i + 1) * m], t[i], w.p)
    k = w.S * w.V
    J, H = con.get_csc_jacobian(xh).toarray()[:, :k], con.get_csc_hessian(xh, lam).toarray()[:k, :k]
    close(J, D * s[:k] / cs[:, None], "Jacobian by the stage variables")
    close(H, E * s[:k] * s[:k, None], "Hessian by the stage variables")
    return dict(fixed=w.fixed, N=w.N, tr=str(w.tr))

"""Runtime contract: continuity constraints of real problems against the transcription equations."""
import numpy as np

from concrete.access import constraints_of
from concrete.base import case, require, close, equal, twice, vec
from concrete import toy


def check_jacobian(rng, w, J, x, what):
    """The equations are quadratic, so central differences are exact for any step."""
    for _ in range(4):
        u = rng.normal(size=w.num)
        close(J @ u, (toy.cont(w, x + u) - toy.cont(w, x - u)) / 2, what + " (along a direction)")


@case(quick=150)
def continuity(rng):
    w = toy.world(rng)
    con = constraints_of(w.ocp)["continuity"]
    m = w.N * (w.M - 1) * w.n["states"]
    require(con.num_con == m, "number of continuity constraints")
    x = vec(rng, w.num) * 2
    if not w.fixed:
        x[-1] = toy.mesh_scale(rng)
    if rng.integers(2):             # scaled like any other component; scales are undone below
        s = np.exp(rng.uniform(-1, 1, w.num))
        con.set_input_scales(s)
        con.set_con_scales(np.ones(m))
    else:
        s = np.ones(w.num)
        w.ocp.set_scales(())
    xs = x / s
    x0 = xs.copy()
    close(twice(rng, con.constraints, xs), toy.cont(w, x), "continuity values", rtol=1e-11, atol=1e-11)
    equal(xs, x0, "the decision vector was modified")
    r, c = con.jacobianstructure()
    J = toy.dense(r, c, twice(rng, con.jacobian, xs), (m, w.num)) / s
    check_jacobian(rng, w, J, x, "continuity Jacobian")
    lam = vec(rng, m)
    l0 = lam.copy()
    r, c = con.hessianstructure()
    v = twice(rng, con.hessian, xs, lam)
    equal(lam, l0, "the multipliers were modified")
    H = toy.dense(r, c, v, (w.num, w.num)) / s / s[:, None]
    require(np.all(np.ravel(r) <= np.ravel(c)), "Hessian entries outside the upper triangle")
    F = toy.sym_upper(H)
    g = lambda y: lam @ toy.cont(w, y)      # quadratic: differences are exact
    for _ in range(4):
        u, v = rng.normal(size=(2, w.num))
        close(u @ F @ v, g(x + u + v) - g(x + u) - g(x + v) + g(x), "continuity Hessian (along two directions)",
              rtol=1e-7, atol=1e-7)
    return dict(fixed=w.fixed, transcription=str(w.tr), N=w.N, n=w.n, points=w.points is not None)


@case(quick=40)
def new_mesh_scale(rng):
    """A fixed-mesh problem whose mesh scale (or a problem whose normalized mesh) is changed later."""
    w = toy.world(rng, cyclic=False)
    con = constraints_of(w.ocp)["continuity"]
    x = vec(rng, w.num)
    con.jacobian(x), con.constraints(x)
    how = int(rng.integers(1, 4))
    if w.fixed and how & 1:
        w.scale = toy.mesh_scale(rng)
        w.ocp.set_mesh_scale(w.scale)
    if not w.fixed or how & 2:
        w.points = toy._norm(rng.uniform(0.2, 2, w.N))
        w.ocp.set_normalized_mesh(w.points)
        toy.finish(w)
    close(con.constraints(x), toy.cont(w, x), "values after the mesh change", rtol=1e-11, atol=1e-11)
    r, c = con.jacobianstructure()
    m = con.num_con
    check_jacobian(rng, w, toy.dense(r, c, con.jacobian(x), (m, w.num)), x, "Jacobian after the mesh change")
    return dict(fixed=w.fixed, transcription=str(w.tr), N=w.N)

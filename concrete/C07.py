"""Runtime contract: normalized mesh, interval lengths, rejection of bad interval points."""
import numpy as np

from concrete.access import flat_mesh
from concrete.base import case, require, close, equal, raises, vec
from concrete import toy


def check(w, ocp):
    mesh = np.asarray(flat_mesh(ocp))
    require(mesh.shape == (w.S,), f"mesh has shape {mesh.shape}, expected one point per stage ({w.S})")
    require(abs(mesh[0]) < 2e-6 and abs(mesh[-1] - 1) < 2e-6, "mesh does not span [0, 1]")
    require(np.all(np.diff(mesh) > 0), "mesh is not increasing")
    exp = toy.stage_mesh(w)
    close(mesh, exp, "normalized mesh", rtol=1e-10, atol=1e-10)
    close(getattr(ocp, "_normalized_interval_length", w.h), w.h, "interval lengths", rtol=1e-10, atol=1e-10)
    return exp


@case(quick=150)
def mesh(rng):
    w = toy.world(rng, cyclic=False)
    exp = check(w, w.ocp)
    s = float(np.exp(rng.uniform(-2, 3)))
    close(w.ocp.get_mesh_from_scale(s), exp * s, "mesh from scale")
    x = vec(rng, w.num)
    if not w.fixed:
        x[-1] = s
        close(w.ocp.get_mesh_from_dec_var(x), exp * s, "mesh from decision variables")
    else:
        close(w.ocp.get_mesh_from_dec_var(x), exp * w.scale, "mesh from decision variables")
        close(w.ocp.get_mesh(), exp * w.scale, "mesh")
        w.ocp.set_mesh_scale(s)
        close(w.ocp.get_mesh(), exp * s, "mesh after set_mesh_scale")
        close(w.ocp.get_mesh_from_dec_var(x), exp * s, "mesh from decision variables after set_mesh_scale")
    # and again with other points
    w.points = [None, toy._norm(rng.uniform(0.05, 2, w.N))][int(rng.integers(2))]
    given = None if w.points is None else (w.points.copy() if rng.integers(2) else list(w.points))
    w.ocp.set_normalized_mesh(given)
    if given is not None:
        equal(given, w.points, "the interval points were modified")
    toy.finish(w)
    check(w, w.ocp)
    return dict(fixed=w.fixed, tr=str(w.tr), N=w.N)


@case(quick=150)
def rejection(rng):
    w = toy.world(rng, cyclic=False)
    N = w.N
    p = toy._norm(rng.uniform(0.2, 2, N))
    k = int(rng.integers(8))
    if k == 0:
        p, bad = toy._norm(rng.uniform(0.2, 2, N + int(rng.integers(1, 4)))), "too many points"
    elif k == 1:
        p, bad = np.linspace(0, 1, N) if N > 1 else np.array([0.0]), "too few points"
    elif k == 2:
        p[0] += [1e-3, -1e-3, 1e-5, -0.5][int(rng.integers(4))]
        bad = "not starting at 0"
    elif k == 3:
        p[-1] += [1e-3, -1e-3, 1e-5, -1e-5, 0.5][int(rng.integers(5))]
        bad = "not ending at 1"
    elif k == 4 and N > 1:
        i = int(rng.integers(1, N))
        p[i] = p[i - 1]
        bad = "repeated point"
    elif k == 5 and N > 2:
        i = int(rng.integers(1, N - 1))
        p[i], p[i + 1] = p[i + 1], p[i]
        bad = "decreasing points"
    elif k == 6:
        p, bad = p[::-1].copy(), "reversed points"
    elif k == 7 and N > 1:
        p[int(rng.integers(1, N))] = np.nan
        bad = "NaN"
    else:
        p = p * 2
        bad = "spanning [0, 2]"
    before = np.array(flat_mesh(w.ocp))
    raises(ValueError, lambda: w.ocp.set_normalized_mesh(p), f"interval points accepted: {bad} {p}")
    close(flat_mesh(w.ocp), before, "mesh changed by a rejected call")
    import dataclasses
    cfg = dataclasses.replace(w.cfg, interval_points=p)
    mk = (lambda: toy.FixedMeshOCP(w.cls(), cfg, mesh_scale=1.0)) if w.fixed else (
        lambda: toy.ScaledMeshOCP(w.cls(), cfg))
    raises(ValueError, mk, f"interval points accepted by the constructor: {bad} {p}")
    return dict(bad=bad, N=N)

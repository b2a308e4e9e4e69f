"""Runtime contract: bounds, boundary conditions and scales after any history."""
import dataclasses

import numpy as np

from concrete.base import case, require, close, equal, raises, vec
from concrete import toy
from lumos.optimal_control.nlp import BaseObjective
from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP
from concrete.toy import BoundConfig, BoundaryConditionConfig, ScaleConfig


class Model:
    """What the bounds should be: writes in order, boundary conditions on top."""

    def __init__(self, w):
        self.w = w
        self.bounds, self.bcs = [], []
        if w.ocp.is_condensed:
            for k in range(w.n["states_dot"]):
                self.bounds.append(("states_dot", k, (0.0, 0.0)))

    def expected(self):
        w = self.w
        lb, ub = np.full(w.num, -np.inf), np.full(w.num, np.inf)
        for g, k, (lo, hi) in self.bounds:
            if g == "global":
                lb[-1], ub[-1] = lo, hi
                continue
            idx = np.arange(w.S) * w.V + w.off[g] + k
            lb[idx], ub[idx] = lo, hi
        for g, k, s, (lo, hi) in self.bcs:
            if g == "global":
                lb[-1], ub[-1] = lo, hi
                continue
            i = (s % w.S) * w.V + w.off[g] + k
            lb[i], ub[i] = lo, hi
        return lb, ub

    def check(self, what):
        lb, ub = self.expected()
        equal(self.w.ocp.lb, lb, f"lower bounds after {what}")
        equal(self.w.ocp.ub, ub, f"upper bounds after {what}")


def any_var(rng, w, glob=True):
    c = [(g, k) for g in w.groups for k in range(w.n[g])]
    if glob and not w.fixed and rng.random() < 0.15:
        return "global", 0, "mesh_scale"
    g, k = c[int(rng.integers(len(c)))]
    return g, k, w.model.get_group_names(g)[k]


def any_bound(rng, w):
    g, k, n = any_var(rng, w)
    if g == "global":
        lo = float(rng.uniform(0.1, 1))
        return (g, k, (lo, lo + 1.0)), BoundConfig(g, n, (lo, lo + 1.0))
    if rng.random() < 0.4:
        lo = rng.normal(size=w.S)
        hi = lo + np.where(rng.random(w.S) < 0.3, 0.0, np.exp(rng.normal(size=w.S)))
        return (g, k, (lo.copy(), hi.copy())), BoundConfig(g, n, (lo, hi))
    t = int(rng.integers(4))
    lo = float(rng.normal())
    v = [(lo, lo + float(np.exp(rng.normal()))), (lo, lo), (lo, np.inf), (-np.inf, lo)][t]
    return (g, k, v), BoundConfig(g, n, v)


def any_bc(rng, w):
    g, k, n = any_var(rng, w, glob=False)
    s = int(rng.choice([0, -1, -w.S, w.S - 1, int(rng.integers(-w.S, w.S))]))
    v = float(rng.normal())
    if rng.random() < 0.25:
        t = (v, v + float(np.exp(rng.normal())))
        return (g, k, s, t), BoundaryConditionConfig(s, g, n, t)
    return (g, k, s, (v, v)), BoundaryConditionConfig(s, g, n, v)


def many(rng, f, w, n=4):
    t = [f(rng, w) for _ in range(int(rng.integers(n)))]
    return [a for a, _ in t], tuple(b for _, b in t)


@case(quick=250)
def history(rng):
    """Constructor settings, then any sequence of updates."""
    w0 = toy.world(rng, cyclic=False, condensed=bool(rng.integers(2)), backend="custom")
    b, bc_ = many(rng, any_bound, w0), many(rng, any_bc, w0)
    cfg = toy.SimConfig(**{**w0.cfg.__dict__, "bounds": b[1], "boundary_conditions": bc_[1]})
    model = w0.cls()
    w0.ocp = toy.FixedMeshOCP(model, cfg, mesh_scale=1.0) if w0.fixed else toy.ScaledMeshOCP(model, cfg)
    w = w0
    m = Model(w)
    # the condensed problem fixes the state derivatives whatever the configuration says
    m.bounds = b[0] + m.bounds
    m.bcs = list(bc_[0])
    m.check("construction")
    log = []
    for _ in range(int(rng.integers(1, 6))):
        if rng.integers(2):
            a, c = many(rng, any_bound, w)
            w.ocp.update_bounds(c)
            m.bounds += a
            log.append("bounds")
        else:
            a, c = many(rng, any_bc, w, 3)
            w.ocp.update_boundary_conditions(c)
            m.bcs += a
            log.append("conditions")
        m.check(" then ".join(log))
    for g in w.groups:
        for k, n in enumerate(w.model.get_group_names(g)):
            lb, ub = m.expected()
            idx = np.arange(w.S) * w.V + w.off[g] + k
            equal(w.ocp.get_lb(g, n), lb[idx], f"get_lb({g}, {n})")
            equal(w.ocp.get_ub(g, n), ub[idx], f"get_ub({g}, {n})")
    return dict(ops=len(log), fixed=w.fixed)


@case(quick=80)
def setters(rng):
    """set_state_bounds etc.: one variable at one stage, or at all."""
    w = toy.world(rng, cyclic=False)
    m = Model(w)
    lb, ub = m.expected()
    for _ in range(4):
        g = ["states", "inputs", "con_outputs"][int(rng.integers(3))]
        if not w.n[g]:
            continue
        k = int(rng.integers(w.n[g]))
        s = None if rng.integers(3) == 0 else int(rng.integers(-w.S, w.S))
        lo = float(rng.normal())
        v = (lo, lo + 1.0) if rng.integers(2) else lo
        f = dict(states="set_state_bounds", inputs="set_input_bounds", con_outputs="set_con_output_bounds")[g]
        getattr(w.ocp, f)(w.model.get_group_names(g)[k], s, v)
        idx = np.arange(w.S) * w.V + w.off[g] + k
        if s is not None:
            idx = idx[s]
        lb[idx], ub[idx] = v if isinstance(v, tuple) else (v, v)
        equal(w.ocp.lb, lb, f"lower bounds after {f}")
        equal(w.ocp.ub, ub, f"upper bounds after {f}")
    return dict(fixed=w.fixed)


@case(quick=200)
def rejection(rng):
    """Contradictory and wrongly sized bounds are rejected; what is set stays."""
    w = toy.world(rng, cyclic=False)
    m = Model(w)
    a, c = many(rng, any_bound, w)
    w.ocp.update_bounds(c)
    m.bounds += a
    g, k, n = any_var(rng, w, glob=False)
    S = w.S
    lo = rng.normal(size=S)
    d = np.exp(rng.normal(size=S))
    kind = int(rng.integers(8))
    if kind == 0:
        v, what = (1.0, 1.0 - float(np.exp(rng.uniform(-20, 2)))), "scalar bounds with the lower above the upper"
    elif kind == 1:
        hi = lo + d
        j = int(rng.integers(S))
        hi[j] = lo[j] - float(np.exp(rng.uniform(-12, 1)))
        v, what = (lo, hi), f"array bounds with the lower above the upper at stage {j} only"
    elif kind == 2:
        t = rng.normal(size=S + int(rng.choice([-1, 1, S])))
        v, what = (t, t + 1), f"array bounds of size {len(t)} for {S} stages"
    elif kind == 3:
        v, what = (lo, (lo + d)[:-1]), "array bounds of two sizes"
    elif kind == 4:
        v, what = (lo, 10.0), "a lower bound array with a scalar upper bound"
    elif kind == 5:
        v, what = (lo[None, :], (lo + d)[None, :]), "2d bound arrays"
    elif kind == 6:
        v, what = (float(lo[0]), lo + d), "a scalar lower bound with an upper bound array"
    else:
        v, what = (1.0, np.nan), "a bound that is not a number"
    raises((AssertionError, TypeError, ValueError), lambda: w.ocp.update_bounds((BoundConfig(g, n, v),)),
           f"{what} were accepted")
    m.check("a rejected update")
    # and past the configuration object
    t = lo + d
    j = int(rng.integers(S))
    bad = t.copy()
    bad[j] = lo[j] - float(np.exp(rng.uniform(-25, 0)))
    raises((AssertionError, ValueError), lambda: w.ocp.set_state_bounds(w.model.get_group_names("states")[0], None, (lo, bad)),
           f"set_state_bounds accepted a lower bound above the upper at stage {j}")
    raises((AssertionError, ValueError), lambda: w.ocp.set_state_bounds(w.model.get_group_names("states")[0], None,
                                                                        (lo[:-1], t[:-1])),
           "set_state_bounds accepted arrays of the wrong size")
    raises((AssertionError, ValueError), lambda: w.ocp.set_state_bounds(w.model.get_group_names("states")[0], 0, (1.0, 0.5)),
           "set_state_bounds accepted contradictory bounds")
    m.check("a rejected update")
    raises(Exception, lambda: w.ocp.update_bounds((BoundConfig("states", "no_such_name", (0.0, 1.0)),)),
           "bounds on an unknown variable were accepted")
    raises(Exception, lambda: w.ocp.update_bounds((BoundConfig("no_such_group", n, (0.0, 1.0)),)),
           "bounds on an unknown group were accepted")
    s = S + int(rng.integers(3))
    raises(Exception, lambda: w.ocp.set_state_bounds(w.model.get_group_names("states")[0], s, 0.0),
           f"bounds at stage {s} of {S} were accepted")
    m.check("a rejected update")
    return dict(kind=kind)


def raw(w, x):
    """Unscaled constraint values by component, in order: the oracle evaluates at unscaled x."""
    from concrete import toy as t
    v = np.asarray(x)[:w.S * w.V].reshape(w.S, w.V)
    mesh = t.stage_mesh(w) * t.scale_of(w, x)
    ns = w.n["states"]
    if not w.ocp.is_condensed:
        alg = np.concatenate([w.model.full_val(v[s], mesh[s], w.p) for s in range(w.S)])
        return dict(model_algebra=alg, continuity=t.cont(w, x))
    off = w.off["states_dot"]
    y = np.array(x, float)
    a = y[:w.S * w.V].reshape(w.S, w.V)
    rest = []
    for s in range(w.S):
        u = v[s].copy()
        u[off:off + ns] = 0
        r = w.model.full_val(u, mesh[s], w.p)
        a[s, off:off + ns] = r[:ns]
        rest.append(r[ns:])
    return dict(model_algebra=np.concatenate([t.cont(w, y), np.ravel(rest)]))


@case(quick=200)
def scales(rng):
    """After any sequence of scale settings, only the last one counts."""
    states = [("time",), ("q", "time"), ("time", "r", "b")][int(rng.integers(3))]
    w = toy.world(rng, condensed=bool(rng.integers(2)), backend=["custom", "custom", "casadi"][int(rng.integers(3))],
                  states=states)
    ocp = w.ocp
    ns, nc = w.n["states"], w.n["con_outputs"]
    nr = w.model.num_implicit_res - ns - nc
    for _ in range(int(rng.integers(1, 4))):
        val = {}
        conf = []
        for _ in range(int(rng.integers(0, 6))):
            g, k, n = any_var(rng, w)
            s = float(np.exp(rng.uniform(-2, 2)))
            val[g, k] = s
            conf.append(ScaleConfig(g, n, s))
        if rng.integers(4) == 0:           # a new problem, with the scales in its settings
            cfg = dataclasses.replace(w.cfg, scales=tuple(conf) if rng.integers(2) else conf)
            w.ocp = ocp = FixedMeshOCP(w.model, cfg, mesh_scale=w.scale) if w.fixed else ScaledMeshOCP(w.model, cfg)
        else:
            ocp.set_scales(tuple(conf) if rng.integers(2) else conf)
        one = np.concatenate([[val.get((g, k), 1.0) for k in range(w.n[g])] for g in w.groups])
        dec = np.concatenate([np.tile(one, w.S)] + ([] if w.fixed else [[val.get(("global", 0), 1.0)]]))
        st = np.array([val.get(("states", k), 1.0) for k in range(ns)])
        co = np.array([val.get(("con_outputs", k), 1.0) for k in range(nc)])
        x = vec(rng, w.num)
        if not w.fixed:
            x[-1] = float(np.exp(rng.uniform(-1, 1)))
        exp = raw(w, x * dec)
        cont = np.tile(st, w.N * (w.M - 1))
        if ocp.is_condensed:
            sc = dict(model_algebra=np.concatenate([cont] + [np.concatenate([co, np.ones(nr)])] * w.S))
        else:
            sc = dict(model_algebra=np.tile(np.concatenate([st, co, np.ones(nr)]), w.S), continuity=cont)
        got = ocp.split_constraints(ocp.constraints(x))
        require(set(got) == set(exp) | ({"cyclic"} if w.cyclic else set()), f"components {sorted(got)}")
        for n in exp:
            close(got[n], exp[n] / sc[n], f"scaled {n} constraints")
        if w.cyclic:
            names = [(g, n) for g in ("states", "inputs") for n in w.model.get_group_names(g)
                     if f"{g}.{n}" not in w.noncyc]
            idx = np.array([w.off[g] + list(w.model.get_group_names(g)).index(n) for g, n in names], int)
            a = (x * dec)[:w.S * w.V].reshape(w.S, w.V)
            c = np.asarray(got["cyclic"], float)
            d = a[0, idx] - a[-1, idx]
            require(c.shape == d.shape, "number of cyclic constraints")
            # whatever scale they carry, they are this difference
            close(c / np.max(np.abs(c)), d / np.max(np.abs(d)) * np.sign(c[np.argmax(np.abs(c))] * d[np.argmax(np.abs(c))]),
                  "cyclic constraints use other variable scales")
        # the components see the same variable scales in their derivatives too
        u = rng.normal(size=w.num)
        r, c = ocp.jacobianstructure()
        J = toy.dense(r, c, ocp.jacobian(x), (ocp.num_con, w.num))
        close(J @ u, toy.dir1(ocp.constraints, x, u), "Jacobian after scaling", rtol=1e-6, atol=1e-6)
        close(ocp.gradient(x) @ u, toy.dir1(ocp.objective, x, u), "gradient after scaling", rtol=1e-6, atol=1e-6)
        equal(ocp.cl, np.zeros(ocp.num_con), "lower constraint bounds")
        equal(ocp.cu, np.zeros(ocp.num_con), "upper constraint bounds")
    return dict(fixed=w.fixed, condensed=ocp.is_condensed)


@case(quick=60)
def objective_scales(rng):
    """The time objective is the unscaled mesh scale or duration, and every objective sees the scales in effect."""
    w = toy.world(rng, cyclic=False, states=[("time",), ("q", "time"), ("time", "r")][int(rng.integers(3))])
    s = float(np.exp(rng.uniform(-2, 2)))
    g, k, n = any_var(rng, w, glob=False)
    j = int(rng.integers(w.num))
    own = rng.integers(2)
    if own:                       # an objective of the user's, added before or after the scales are set
        o = BaseObjective(w.num, lambda x: x[j] ** 3, lambda x: 3 * x[j] ** 2 * np.eye(w.num)[j],
                          lambda x: np.array([6 * x[j]]), (np.array([j]), np.array([j])))
        late = rng.integers(2)
        if not late:
            w.ocp.add_objective("own", o)
    w.ocp.set_scales((ScaleConfig(g, n, 3.0), ScaleConfig("states", "time", 0.4)) if w.fixed
                     else (ScaleConfig(g, n, 3.0), ScaleConfig("global", "mesh_scale", s)))
    if own and late:
        w.ocp.add_objective("own", o)
    d = np.ones(w.num)
    d[w.off[g] + k:w.S * w.V:w.V] = 3.0
    t = w.off["states"] + list(w.model.get_group_names("states")).index("time")
    if w.fixed:
        d[t:w.S * w.V:w.V] = 0.4
    else:
        d[-1] = s
    x = vec(rng, w.num)
    x[-1] = float(np.exp(rng.uniform(-1, 1)))
    z = x * d
    want = z[(w.S - 1) * w.V + t] - z[t] if w.fixed else z[-1]
    grad = np.zeros(w.num)
    if w.fixed:
        grad[(w.S - 1) * w.V + t], grad[t] = 1.0, -1.0
    else:
        grad[-1] = 1.0
    if own:
        want += z[j] ** 3
        grad[j] += 3 * z[j] ** 2
    close(w.ocp.objective(x), want, "objective under scaling")
    close(w.ocp.gradient(x), grad * d, "gradient under scaling")
    w.ocp.set_scales(())
    close(w.ocp.objective(z), want, "objective without scaling")
    close(w.ocp.gradient(z), grad, "gradient without scaling")
    return dict(s=round(s, 3))

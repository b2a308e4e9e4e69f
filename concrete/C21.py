"""Runtime contract: the logged tables hold the unscaled variables, outputs, constraints and mesh of the iterations."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

import lumos.optimal_control.nlp as nlp
from concrete import toy
from concrete.base import case, require, close, equal, vec
from lumos.optimal_control.config import BoundConfig, LoggingConfig, ScaleConfig
from lumos.optimal_control.nlp import BaseObjective


class Script:
    """Stands in for the solver: evaluates the scripted points and reports them as iterations."""
    points = None       # [(iteration, mode, scaled vector)]

    def __init__(self, n, m, problem_obj, **kw):
        self.p, self.n, self.m = problem_obj, n, m

    def add_option(self, *a):
        pass

    def solve(self, x, **kw):
        p, mult = self.p, np.ones(self.m)
        for it, mode, y, trial in self.points:
            if trial is not None:       # a rejected trial point
                p.objective(trial.copy())
                p.constraints(trial.copy())
            p.objective(y.copy())
            if len(self.points) > 40 and it % 40:
                p.intermediate(mode, it, 10.0 + it, 0.5 * it, 0.25, 0.1, 1.0, 0.0, 1.0, 1.0, 1)
                continue
            p.constraints(y.copy())
            p.gradient(y.copy())
            p.jacobian(y.copy())
            p.hessian(y.copy(), mult, 1.0)
            p.intermediate(mode, it, 10.0 + it, 0.5 * it, 0.25, 0.1, 1.0, 0.0, 1.0, 1.0, 1)
        return y.copy(), {"status": 0, "status_msg": b"", "obj_val": 0.0}


def make(rng, root, every, **kw):
    states = [("time",), ("q", "time"), ("time", "r")][int(rng.integers(3))]
    kw.setdefault("backend", ["custom", "custom", "custom", "casadi"][int(rng.integers(4))])
    w = toy.world(rng, condensed=bool(rng.integers(2)), states=states,
                  logging_config=LoggingConfig(sim_name=f"s{rng.integers(1 << 60)}", results_dir=root,
                                               log_every_nth_iter=every), **kw)
    w.val = {}
    conf = []
    for g in w.groups:
        for k, n in enumerate(w.model.get_group_names(g)):
            if rng.integers(2):
                w.val[g, k] = float(np.exp(rng.uniform(-2, 2)))
                conf.append(ScaleConfig(g, n, w.val[g, k]))
    w.ms = 1.0
    if not w.fixed and rng.integers(3):
        w.ms = float(np.exp(rng.uniform(-2, 2)))
        conf.append(ScaleConfig("global", "mesh_scale", w.ms))
    w.ocp.set_scales(tuple(conf))
    one = np.concatenate([[w.val.get((g, k), 1.0) for k in range(w.n[g])] for g in w.groups])
    w.dec = np.concatenate([np.tile(one, w.S)] + ([] if w.fixed else [[w.ms]]))
    return w


def vector(rng, w):
    """A scaled decision vector."""
    x = vec(rng, w.num)
    if not w.fixed:
        x[-1] = float(np.exp(rng.uniform(-1, 1)))
    return x


def check_table(w, t, x, it, what, tol=1e-7):
    """The table t against the scaled decision vector x."""
    def col(name):
        require(name in t.columns, f"{what}: column {name} is missing")
        v = t[name].values
        require(len(v) == w.S, f"{what}: {len(v)} rows, expected {w.S}")
        return v
    u = x * w.dec
    v = u[:w.S * w.V].reshape(w.S, w.V)
    for g in w.groups:
        for k, n in enumerate(w.model.get_group_names(g)):
            close(col(f"{g}.{n}"), v[:, w.off[g] + k], f"{what}: {g}.{n}", rtol=tol, atol=tol)
    mesh = toy.stage_mesh(w) * toy.scale_of(w, u)
    close(col("mesh"), mesh, f"{what}: mesh", rtol=tol, atol=tol)
    equal(col("iter"), np.full(w.S, it), f"{what}: iteration number")
    ns, nc = w.n["states"], w.n["con_outputs"]
    z = [np.concatenate([v[s, w.off[g]:w.off[g] + w.n[g]] for g in ("states", "inputs")]) for s in range(w.S)]
    f = np.array([w.model.f.val(z[s], mesh[s], w.p) for s in range(w.S)])
    # rounding of the recomputed equations, for iterates that went far away
    zz = np.max(np.abs(np.concatenate(z)), initial=0)
    far = max(np.max(np.abs(f), initial=0), np.max(np.abs(v), initial=0), zz ** 2, zz ** 6 if np.any(w.model.f.d) else 0)
    rnd = max(tol, 1e-12 * far * (1 + toy.scale_of(w, u)) / min([1.0] + list(w.val.values())))
    for k, n in enumerate(w.model.get_group_names("outputs")):
        close(col(f"outputs.{n}"), f[:, ns + k], f"{what}: output {n}", rtol=tol, atol=rnd)
    sc = {(g, n): w.val.get((g, k), 1.0) for g in w.groups for k, n in enumerate(w.model.get_group_names(g))}
    y = u.copy()
    if w.ocp.is_condensed:
        y[:w.S * w.V].reshape(w.S, w.V)[:, w.off["states_dot"]:w.off["states_dot"] + ns] = f[:, :ns]
    cont = toy.cont(w, y).reshape(w.S - 1, ns)
    for k, n in enumerate(w.model.get_group_names("states")):
        s = sc["states", n]
        close(col(f"interval_con.{n}"), np.r_[0.0, cont[:, k] / s], f"{what}: continuity of {n}", rtol=tol, atol=rnd)
        if not w.ocp.is_condensed:
            close(col(f"stage_con.{n}"), (f[:, k] - v[:, w.off["states_dot"] + k]) / s, f"{what}: equation of {n}",
                  rtol=tol, atol=rnd)
    con, res = list(w.model.get_group_names("con_outputs")), list(w.model.get_group_names("residuals"))
    outs = list(w.model.get_group_names("outputs"))
    for k, n in enumerate(con):
        if n in res:
            continue        # the two constraints share a column name
        close(col(f"stage_con.{n}"), (f[:, ns + outs.index(n)] - v[:, w.off["con_outputs"] + k])
              / sc["con_outputs", n], f"{what}: constrained output {n}", rtol=tol, atol=rnd)
    for n in res:
        if n not in con:
            close(col(f"stage_con.{n}"), f[:, ns + outs.index(n)], f"{what}: residual {n}", rtol=tol, atol=rnd)
    if w.cyclic:
        for g in ("states", "inputs"):
            for k, n in enumerate(w.model.get_group_names(g)):
                name = f"cyclic_con.{g}.{n}"
                if f"{g}.{n}" in w.noncyc:
                    require(name not in t.columns, f"{what}: {name} is not cyclic")
                    continue
                c = col(name)
                d = v[0, w.off[g] + k] - v[-1, w.off[g] + k]
                close(c, np.r_[np.zeros(w.S - 1), d], f"{what}: {name}", rtol=tol, atol=tol)
    else:
        require(not [c for c in t.columns if c.startswith("cyclic_con")], f"{what}: cyclic columns")


def violation(w, t):
    """(largest violation, names and mesh points attaining it) of a table."""
    cols = [c for c in t.columns if "_con." in c]
    a = t[cols].abs().values
    m = a.max()
    return m, [(cols[j], t["mesh"].values[i]) for i, j in np.argwhere(a > m - 1e-9 * max(1, m))]


@case(quick=90, thorough=900)
def scripted(rng):
    """Any iteration history reported by the solver, repeatedly."""
    root = tempfile.mkdtemp(prefix="logs_", dir=".")
    every = int(rng.integers(0, 5))
    long = int(rng.integers(10)) == 0
    if long:
        every = int(rng.choice([7, 10, 25, 50, 100]))
    w = make(rng, root, every)
    w.ocp.add_objective("extra", BaseObjective(
        num_in=w.num, objective=lambda x: 0.5 * x @ x, gradient=lambda x: x, hessian=lambda x: np.ones(w.num),
        hessian_structure=(np.arange(w.num), np.arange(w.num))))
    w.ocp.set_scales(tuple(ScaleConfig(g, w.model.get_group_names(g)[k], s) for (g, k), s in w.val.items())
                     + (() if w.fixed else (ScaleConfig("global", "mesh_scale", w.ms),)))
    real = nlp.cyipopt.Problem
    try:
        nlp.cyipopt.Problem = Script
        for rep in range(int(rng.integers(1, 3))):
            K = int(rng.integers(95, 130)) if long else int(rng.integers(0, 9))
            xs = [vector(rng, w) for _ in range(K + 1)]
            pts = []
            for k in range(K + 1):
                mode = int(rng.integers(3) == 0)
                trial = vector(rng, w) if rng.integers(3) == 0 else None
                pts.append((k, mode, xs[k], trial))
                if mode and rng.integers(2):
                    # leaving restoration, the same iteration is reported again
                    pts.append((k, 0, xs[k], None))
            Script.points = pts
            sol, info = w.ocp.solve(init_guess=vector(rng, w) * w.dec, print_timing_statistics="no")
            close(sol, xs[-1] * w.dec, "solution")
            require(info["num_iter"] == K, f"{info['num_iter']} iterations, expected {K}")
            d = w.ocp.logging_dir
            t = pd.read_csv(os.path.join(d, "results.csv"))
            check_table(w, t, xs[-1], K, "results")
            mh = pd.read_csv(os.path.join(d, "metrics_history.csv"))
            equal(mh["iter_count"].values, np.arange(K + 1), "iterations in the metrics history")
            equal(mh["obj_value"].values, 10.0 + np.arange(K + 1), "objective values in the metrics history")
            close(mh["inf_pr"].values, 0.5 * np.arange(K + 1), "infeasibilities in the metrics history")
            left = [f for f in os.listdir(d) if f.startswith("iter")]
            require(not left, f"iteration files {left} are left behind")
            if every:
                a = pd.read_parquet(os.path.join(d, "all_iters.parquet"))
                want = sorted(set(range(0, K + 1, every)) | {K})
                equal(sorted(set(a["iter"])), want, "iterations in the combined table")
                require(np.all(np.diff(a["iter"]) >= 0), "order of the iterations in the combined table")
                require(len(a) == len(want) * w.S, f"{len(a)} rows in the combined table, expected {len(want) * w.S}")
                for k in want:
                    tk = a[a["iter"] == k].reset_index(drop=True)
                    check_table(w, tk, xs[k], k, f"iteration {k} of the combined table")
                    dup = tk.columns.duplicated().any() or any("_con." in c and c.endswith(".1") for c in tk.columns)
                    m, where = violation(w, tk)
                    r = mh.iloc[k]
                    if not dup and m > 0:
                        require(any(c == r["max_violation_con_name"] and abs(p - r["max_violation_mesh"]) < 1e-9 *
                                    max(1, abs(p)) for c, p in where),
                                f"largest violation of iteration {k}: {r['max_violation_con_name']} at "
                                f"{r['max_violation_mesh']}, expected {where}")
                for k in set(range(K + 1)) - set(want):
                    require(mh.iloc[k]["max_violation_con_name"] == "NotRecorded", "a violation was invented")
            else:
                require("all_iters.parquet" not in os.listdir(d), "a combined table was written")
    finally:
        nlp.cyipopt.Problem = real
        shutil.rmtree(root, ignore_errors=True)
    return dict(fixed=w.fixed, cond=w.ocp.is_condensed, every=every, K=K)


@case(quick=12, thorough=100)
def solved(rng):
    """With the real solver."""
    root = tempfile.mkdtemp(prefix="logs_", dir=".")
    try:
        every = int(rng.integers(0, 4))
        w = make(rng, root, every, fixed=bool(rng.integers(2)), backend="custom", hessian_approximation="limited-memory",
                 sizes=(2, 2, 0), cyclic=False)
        if not w.fixed:
            w.ocp.update_bounds((BoundConfig("global", "mesh_scale", (0.1, 5.0)),))
        x0 = vector(rng, w) * w.dec
        if not w.fixed:
            x0[-1] = 1.0
        sol, info = w.ocp.solve(init_guess=x0, max_iter=30, print_level=0, print_timing_statistics="no",
                                fixed_variable_treatment="make_parameter")
        d = w.ocp.logging_dir
        K = info["num_iter"]
        check_table(w, pd.read_csv(os.path.join(d, "results.csv")), sol / w.dec, K, "results", tol=1e-6)
        if every:
            a = pd.read_parquet(os.path.join(d, "all_iters.parquet"))
            equal(sorted(set(a["iter"])), sorted(set(range(0, K + 1, every)) | {K}), "iterations in the combined table")
            check_table(w, a[a["iter"] == K].reset_index(drop=True), sol / w.dec, K, "last iteration", tol=1e-6)
            first = a[a["iter"] == 0].reset_index(drop=True)
            y = first[[f"{g}.{n}" for g in w.groups for n in w.model.get_group_names(g)]].values.ravel()
            ms = [] if w.fixed else [first["mesh"].values[-1]]
            check_table(w, first, np.r_[y, ms] / w.dec, 0, "first iteration", tol=1e-6)
        equal(pd.read_csv(os.path.join(d, "metrics_history.csv"))["iter_count"].values, np.arange(K + 1), "iterations")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return dict(fixed=w.fixed, K=int(K), every=every)

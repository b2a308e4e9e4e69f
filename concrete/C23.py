"""Runtime contract: the solver is handed the scaled problem; the unscaled solution comes back."""
import os
import re

import cyipopt
import numpy as np

import lumos.optimal_control.nlp as nlp
from concrete.access import constraints_of, objectives_of, set_dec_scales
from concrete import toy
from concrete.base import case, require, close, equal, raises, factor, vec
from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig, ScaleConfig
from lumos.optimal_control.nlp import BaseConstraints, BaseObjective, CompositeProblem, LinearConstraints

REAL = cyipopt.Problem


class Solver:
    """Stands in for the solver: records what it is given and answers with a scripted point."""
    made = []
    answer = None
    status = 0
    bad = None
    text = None
    iters = (3,)

    def __init__(self, n, m, problem_obj=None, lb=None, ub=None, cl=None, cu=None):
        require(isinstance(n, (int, np.integer)) and isinstance(m, (int, np.integer)), "sizes are integers")
        self.n, self.m, self.p, self.lb, self.ub, self.cl, self.cu = n, m, problem_obj, lb, ub, cl, cu
        self.options, self.calls = {}, []
        Solver.made.append(self)

    def add_option(self, name, val):
        if name == Solver.bad:
            raise TypeError("not an option")
        self.options[name] = val

    addOption = add_option

    def solve(self, x, lagrange=[], zl=[], zu=[]):
        self.calls.append((np.array(x), lagrange, zl, zu))
        if Solver.text is not None:
            with open(self.options["output_file"], "w") as f:
                f.write(Solver.text)
        for k in Solver.iters:
            self.p.intermediate(0, k, 1.0, 0.0, 0.0, 0.1, 1.0, 0.0, 1.0, 1.0, 1)
        more = {"x": Solver.answer.copy(), "g": np.linspace(1, 2, self.m), "mult_g": np.linspace(3, 4, self.m),
                "mult_x_L": np.linspace(5, 6, self.n), "mult_x_U": np.linspace(7, 8, self.n)}
        return Solver.answer, {"status": Solver.status, "status_msg": b"message", "obj_val": 4.5, **more}


class Script:
    def __init__(self, answer, status=0, bad=None, text=None):
        self.v = answer, status, bad, text

    def __enter__(self):
        Solver.made, (Solver.answer, Solver.status, Solver.bad, Solver.text) = [], self.v
        nlp.cyipopt.Problem = Solver

    def __exit__(self, *a):
        nlp.cyipopt.Problem = REAL


class Problem(CompositeProblem):
    def get_init_guess(self):
        return self.guess


def quadratic(rng, n, objectives=None):
    """Random quadratic components with scales and bounds: (problem, the unscaled functions)."""
    p = Problem(n)
    p.guess = rng.normal(size=n)
    s = np.exp(rng.uniform(-2, 2, n)) if rng.integers(3) else np.ones(n)
    late = rng.integers(2)
    if not late:
        set_dec_scales(p, s)
    cons, objs = [], []
    for k in range(int(rng.integers(1, 4))):
        m = int(rng.integers(1, 4))
        A = rng.normal(size=(m, n, n))
        A = A + A.transpose(0, 2, 1)
        b = rng.normal(size=(m, n))
        f = lambda x, A=A, b=b: 0.5 * np.einsum("rij,i,j->r", A, x, x) + b @ x
        r, c = np.nonzero(np.ones((m, n)))
        hr, hc = np.nonzero(np.ones((n, n)))
        if rng.integers(3):
            q = BaseConstraints(n, m, f, lambda x, A=A, b=b, r=r, c=c: (A @ x + b)[r, c],
                                lambda x, l, A=A, hr=hr, hc=hc: np.einsum("r,rij->ij", l, A)[hr, hc], (r, c), (hr, hc))
        else:
            A = 0 * A
            f = lambda x, b=b: b @ x
            q = LinearConstraints(constraints=f, num_in=n, num_con=m, jacobian=lambda x, b=b, r=r, c=c: b[r, c],
                                  jacobian_structure=(r, c))
        p.add_constraints(f"c{k}", q)
        cons.append((f, A, b))
    for k in range(int(rng.integers(0, 3)) if objectives is None else objectives):
        A = rng.normal(size=(n, n))
        A = A + A.T
        b = rng.normal(size=n)
        hr, hc = np.nonzero(np.ones((n, n)))
        p.add_objective(f"o{k}", BaseObjective(n, lambda x, A=A, b=b: float(0.5 * x @ A @ x + b @ x),
                                               lambda x, A=A, b=b: A @ x + b, lambda x, A=A, hr=hr, hc=hc: A[hr, hc],
                                               (hr, hc)))
        objs.append((A, b))
    if late:
        set_dec_scales(p, s)
        for c in list(constraints_of(p).values()) + list(objectives_of(p).values()):
            c.set_input_scales(s)
    m = sum(len(b) for _, _, b in cons)
    p.lb, p.ub = -np.exp(rng.uniform(-1, 3, n)), np.exp(rng.uniform(-1, 3, n))
    p.lb[rng.random(n) < 0.3] = -np.inf
    if rng.integers(3) == 0:      # very large and very small bounds
        p.lb, p.ub = (v * 10.0 ** rng.integers(-8, 12, n) for v in (p.lb, p.ub))
        p.ub[rng.random(n) < 0.2] = np.inf
    p.cl, p.cu = np.sort(rng.normal(size=(2, m)), axis=0)
    return p, s, cons, objs


def functions(rng, sv, s, cons, objs):
    """The callbacks handed to the solver, at a scaled point, against the unscaled functions."""
    n = len(s)
    q = sv.p
    y = vec(rng, n)
    x = y * s
    close(q.objective(y), sum(0.5 * x @ A @ x + b @ x for A, b in objs), "objective at a scaled point")
    close(q.gradient(y), sum([(A @ x + b) * s for A, b in objs], np.zeros(n)), "gradient at a scaled point")
    close(q.constraints(y), np.concatenate([f(x) for f, _, _ in cons]), "constraints at a scaled point")
    m = sv.m
    J = toy.dense(*q.jacobianstructure(), q.jacobian(y), (m, n))
    close(J, np.vstack([(A @ x + b) * s for _, A, b in cons]), "Jacobian at a scaled point")
    lam, of = vec(rng, m), factor(rng)
    H = np.zeros((n, n))
    k = 0
    for _, A, b in cons:
        H += np.einsum("r,rij->ij", lam[k:k + len(b)], A)
        k += len(b)
    H += of * sum([A for A, _ in objs], np.zeros((n, n)))
    r, c = q.hessianstructure()
    v = q.hessian(y, lam, of)
    require(len(v) == len(r) == len(c), "size of the Hessian's structure")
    got = np.zeros((n, n))
    np.add.at(got, (np.asarray(r, int), np.asarray(c, int)), v)
    close(got, np.triu(H * np.outer(s, s)), "Hessian at a scaled point")


def handed(sv, p, s, x0, what=""):
    require(len(sv.calls) == 1, "one call of the solver")
    require(sv.p is p, "the problem's callbacks")
    require((sv.n, sv.m) == (p.num_dec, p.num_con), "sizes")
    close(sv.lb, p.lb / s, what + "lower bounds")
    close(sv.ub, p.ub / s, what + "upper bounds")
    close(sv.cl, p.cl, what + "lower constraint bounds")
    close(sv.cu, p.cu, what + "upper constraint bounds")
    close(sv.calls[0][0], x0 / s, what + "initial guess")


def options(rng):
    o = [dict(print_level=int(rng.integers(0, 4))), dict(print_timing_statistics="no"), dict(output_file="")][
        int(rng.integers(3))]
    if rng.integers(2):
        o["max_iter"] = int(rng.integers(5, 500))
    if rng.integers(2):
        o["tol"] = float(rng.random())
    if rng.integers(3) == 0:
        o["hessian_approximation"] = "limited-memory"
    if rng.integers(3) == 0:
        o["some_option"] = 3.5
    if rng.integers(3) == 0:
        o.update(warm_start_init_point="yes", mu_init=1e-4)
    if rng.integers(6) == 0:
        o.update(mu_strategy="adaptive", nlp_scaling_method="none")
    return o


DEFAULTS = {}


def default_options():
    """What a new problem gives the solver without being asked for anything."""
    if not DEFAULTS:
        p = quadratic(np.random.default_rng(0), 2)[0]
        made = Solver.made
        try:
            with Script(np.zeros(2)):
                p.solve(print_timing_statistics="no")
                DEFAULTS.update(Solver.made[0].options)
                DEFAULTS["print_timing_statistics"] = "yes"
        finally:
            Solver.made = made
    return dict(DEFAULTS)


def has_options(sv, p, o):
    want = {**default_options(), "hessian_approximation": p.hessian_approximation, **o}
    require(sv.options == want, f"options {sv.options}, expected {want}")


@case(60)
def problems(rng):
    default_options()
    n = int(rng.integers(1, 6))
    p, s, cons, objs = quadratic(rng, n)
    p.hessian_approximation = ["exact", "limited-memory"][int(rng.integers(2))]
    o, ans = options(rng), rng.normal(size=n)
    keep = {k: np.array(getattr(p, k)) for k in ("lb", "ub", "cl", "cu", "guess")}
    earlier = []
    for rep in range(int(rng.integers(1, 5))):
        kw = {}
        x0 = p.guess
        if rng.integers(2):
            x0 = kw["init_guess"] = vec(rng, n) if rng.integers(5) else np.zeros(n)
        if rng.integers(2):
            kw.update(lagrange=vec(rng, p.num_con), zl=rng.random(n), zu=rng.random(n))
            for k in ("lagrange", "zl", "zu"):
                if rng.integers(3) == 0:
                    del kw[k]
        before = x0.copy()
        last = int(rng.choice([0, 1, 3, 100]))
        Solver.iters = tuple(range(last + 1)) if rng.integers(2) else (last,)
        with Script(ans.copy()):
            sol, info = p.solve(**kw, **o)
            require(len(Solver.made) == 1, "one solver")
            sv = Solver.made[0]
        handed(sv, p, s, before)
        has_options(sv, p, o)
        close(sol, ans * s, "solution")
        earlier.append((sol, ans * s, info, dict(info)))
        for e in earlier:
            equal(e[0], e[1], "a solution returned earlier")
            require(e[2].keys() == e[3].keys() and all(np.array_equal(e[2][k], e[3][k]) for k in e[3]),
                    "information returned earlier has changed")
        equal(x0, before, "the caller's guess is not changed")
        require(info["status"] == 0 and info["obj_val"] == 4.5 and info["num_iter"] == last, f"information {info}")
        Solver.iters = (3,)
        for k, name in enumerate(("lagrange", "zl", "zu")):
            equal(sv.calls[0][k + 1], kw.get(name, []), f"starting multipliers {name}")
        functions(rng, sv, s, cons, objs)
        for k, v in keep.items():
            equal(getattr(p, k), v, f"{k} after solving")
        if rng.integers(2):
            p.lb = keep["lb"] = p.lb - 1.0
            s = np.exp(rng.uniform(-1, 1, n))
            set_dec_scales(p, s)
            for c in list(constraints_of(p).values()) + list(objectives_of(p).values()):
                c.set_input_scales(s)
        if rng.integers(2):
            o = options(rng)
        ans = rng.normal(size=n)


@case(30)
def statuses(rng):
    n = int(rng.integers(1, 4))
    p, s, _, _ = quadratic(rng, n)
    ans = rng.normal(size=n)
    with Script(ans, status=-13):
        raises(RuntimeError, lambda: p.solve(print_level=0), "a failed evaluation must be raised")
    st = int(rng.choice([-1, -2, -3, -4, -10, -11, -12, -100, -101, -102, -199, 1, 2, 3, 4, 5, 6]))
    with Script(ans, status=st):
        sol, info = p.solve(print_level=0)
        close(sol, ans * s, "point returned with another status")
        require(info["status"] == st, "status")
    with Script(ans, bad="max_iter"):
        raises(TypeError, lambda: p.solve(print_level=0), "an option the solver refuses must be raised")


@case(20)
def times(rng):
    """Timing lines of the solver's output."""
    p, s, _, _ = quadratic(rng, 2)
    a, b = (round(float(v), 3) for v in rng.uniform(0, 300, 2))
    text = f"""Number of Iterations....: 12

Total seconds in IPOPT (w/o function evaluations)    = {b:10.3f}
Total seconds in NLP function evaluations            = {a:10.3f}

EXIT: Optimal Solution Found.
"""
    with Script(np.zeros(2), text=text):
        _, info = p.solve(output_file=f"out_{rng.integers(1 << 40)}.txt", print_level=int(rng.integers(4, 8)))
        os.remove(Solver.made[0].options["output_file"])
    require(info["nlp_time"] == a and info["ipopt_time"] == b, f"times {info}, expected {a}, {b}")


@case(30)
def control_problems(rng):
    """Optimal control problems of every kind."""
    w = toy.world(rng, condensed=bool(rng.integers(2)), backend=["custom", "custom", "casadi"][int(rng.integers(3))],
                  states=("time", "q"))
    val, conf, bounds = {}, [], []
    for g in w.groups:
        for k, nme in enumerate(w.model.get_group_names(g)):
            if rng.integers(2):
                val[g, k] = float(np.exp(rng.uniform(-2, 2)))
                conf.append(ScaleConfig(g, nme, val[g, k]))
    ms = 1.0
    if not w.fixed and rng.integers(2):
        ms = float(np.exp(rng.uniform(-2, 2)))
        conf.append(ScaleConfig("global", "mesh_scale", ms))
    w.ocp.set_scales(tuple(conf))
    w.ocp.update_bounds((BoundConfig("states", "q", (-2.0, 3.0)),))
    w.ocp.update_boundary_conditions((BoundaryConditionConfig(0, "states", "time", 0.5),))
    one = np.concatenate([[val.get((g, k), 1.0) for k in range(w.n[g])] for g in w.groups])
    s = np.concatenate([np.tile(one, w.S)] + ([] if w.fixed else [[ms]]))
    x0, ans = rng.normal(size=w.num), rng.normal(size=w.num)
    guess = rng.normal(size=w.num)
    w.ocp.get_init_guess = lambda: guess
    own = rng.integers(2)
    o = options(rng)
    cl = cu = np.zeros(w.ocp.num_con)
    if rng.integers(3) == 0:        # constraints that are not equalities
        cl, cu = np.sort(rng.normal(size=(2, w.ocp.num_con)), axis=0)
        w.ocp.cl, w.ocp.cu = cl.copy(), cu.copy()
    lb, ub = w.ocp.lb.copy(), w.ocp.ub.copy()
    with Script(ans):
        sol, info = w.ocp.solve(x0, **o) if own else w.ocp.solve(**o)
        sv = Solver.made[0]
    handed(sv, w.ocp, s, x0 if own else guess)
    has_options(sv, w.ocp, o)
    close(sol, ans * s, "solution")
    require(info["num_iter"] == 3, "number of iterations")
    i = w.ocp.dec_var_operator.get_var_index_in_dec("states", "q", stage=0)
    close(sv.lb[i] * s[i], -2.0, "a bound on the scaled variable")
    equal(sv.cl, cl, "lower constraint bounds, as set")
    equal(sv.cu, cu, "upper constraint bounds, as set")
    equal(w.ocp.lb, lb, "lower bounds after solving")
    equal(w.ocp.ub, ub, "upper bounds after solving")


@case(10)
def solutions(rng):
    """Convex problems solved for real: the solution does not depend on the scales."""
    n = int(rng.integers(2, 6))
    a, c = np.exp(rng.uniform(-1, 1, n)), rng.normal(size=n)
    B, d = rng.normal(size=(1, n)), rng.normal(size=1)
    p = Problem(n)
    s = np.exp(rng.uniform(-2, 2, n))
    set_dec_scales(p, s)
    p.guess = rng.normal(size=n)
    p.add_objective("q", BaseObjective(n, lambda x: float(0.5 * np.sum(a * (x - c) ** 2)), lambda x: a * (x - c),
                                       lambda x: a, (np.arange(n), np.arange(n))))
    r, q = np.nonzero(np.ones((1, n)))
    p.add_constraints("l", LinearConstraints(constraints=lambda x: B @ x - d, num_in=n, num_con=1,
                                             jacobian=lambda x: B[r, q], jacobian_structure=(r, q)))
    p.cl, p.cu = np.zeros(1), np.zeros(1)
    p.hessian_approximation = "limited-memory"
    sol, info = p.solve(print_level=0, tol=1e-9, max_iter=300, fixed_variable_treatment="make_parameter", output_file="",
                        nlp_scaling_method="none")
    if info["status"] not in (0, 1):
        return
    lam = (B @ c - d) / (B ** 2 / a).sum()
    close(sol, c - (B.T @ lam) / a, "solution", rtol=1e-4, atol=1e-4)

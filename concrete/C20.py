"""Runtime contract: the standalone model solver formulates the model's equations."""
import numpy as np

from concrete.access import direct, objectives_of
from concrete.base import case, require, close, equal, raises, twice, vec
from concrete import toy
from lumos.optimal_control.model_solver import ModelSolver
from lumos.optimal_control.nlp import BaseObjective


class S:
    pass


def solver(rng, **kw):
    s = S()
    order = [None, ("states_dot", "con_outputs", "states", "inputs"), ("inputs", "states", "con_outputs", "states_dot")]
    cls = toy.toy_class(rng, mesh=bool(rng.integers(2)), order=order[int(rng.integers(3))], **kw)
    s.model = m = cls()
    s.p = float(rng.normal())
    t = m.get_recursive_params()
    t.set_param("p", s.p)
    m.set_recursive_params(t)
    outs = list(direct(cls).outputs)
    s.con = rng.permutation(outs)[:int(rng.integers(0, len(outs) + 1))].tolist() if outs else []
    give = [s.con, tuple(s.con)][int(rng.integers(2))] if s.con or rng.integers(2) else None
    s.ms = ModelSolver(m, "casadi", con_outputs=give)
    s.groups = m.implicit_inputs
    s.names = dict(states=direct(cls).states, inputs=direct(cls).inputs,
                   states_dot=direct(cls).states, con_outputs=s.con)
    s.vars = [(g, n) for g in s.groups for n in s.names[g]]
    s.num = len(s.vars)
    s.m = len(s.names["states"]) + len(s.con) + len(direct(cls).residuals)
    s.scale = {}
    s.objs = []         # (position, weight)
    s.quad = []         # (matrix, vector) of the objectives x.A.x/2 + b.x
    return s


def scales(s):
    d = np.array([s.scale.get(v, 1.0) for v in s.vars])
    c = np.array([s.scale.get(("states", n), 1.0) for n in s.names["states"]]
                 + [s.scale.get(("con_outputs", n), 1.0) for n in s.con])
    return d, np.concatenate([c, np.ones(s.m - len(c))])


def probe(rng, s):
    ms = s.ms
    require(ms.num_dec == s.num, f"{ms.num_dec} decision variables, expected {s.num}")
    require(ms.num_con == s.m, f"{ms.num_con} constraints, expected {s.m}")
    require(list(ms.input_names) == [f"{g}.{n}" for g, n in s.vars], f"names {ms.input_names}")
    d, c = scales(s)
    x = vec(rng, s.num)
    x0 = x.copy()
    for k, (g, n) in enumerate(s.vars):
        require(int(ms.get_var_idx(g, n)) == k, f"position of {g}.{n}")
        require(ms.get_var(x, g, n) == x[k], f"value of {g}.{n}")
    val = np.ravel(twice(rng, ms.constraints, x))
    close(val, s.model.full_val(x * d, 0.0, s.p) / c, "constraints")
    r, q = ms.jacobianstructure()
    J = toy.dense(np.asarray(r, int), np.asarray(q, int), twice(rng, ms.jacobian, x), (s.m, s.num))
    close(J, s.model.full_jac(x * d, 0.0, s.p) * d / c[:, None], "Jacobian", rtol=1e-7, atol=1e-7)
    mult = vec(rng, s.m)
    f = float(rng.normal())
    if s.objs or s.quad:
        X = x * d
        close(ms.objective(x), sum(w * X[k] for k, w in s.objs) + sum(X @ A @ X / 2 + b @ X for A, b in s.quad), "objective")
        g = sum([(A @ X + b) * d for A, b in s.quad], np.zeros(s.num))
        for k, w in s.objs:
            g[k] += w * d[k]
        close(twice(rng, ms.gradient, x), g, "gradient")
    hr, hc = ms.hessianstructure()
    hv = twice(rng, ms.hessian, x, mult, f)
    require(np.size(hr) == np.size(hc) == np.size(hv), "Hessian values and structure differ in size")
    H = toy.dense(np.asarray(hr, int), np.asarray(hc, int), hv, (s.num, s.num))
    E = (s.model.full_hess(x * d, mult / c, 0.0, s.p) + f * sum([A for A, _ in s.quad], np.zeros((s.num, s.num)))) * np.outer(d, d)
    close(H, np.triu(E), "Hessian (upper triangle)", rtol=1e-7, atol=1e-7)
    equal(x, x0, "the evaluation changed its argument")
    equal(ms.cl, np.zeros(s.m), "lower constraint bounds")
    equal(ms.cu, np.zeros(s.m), "upper constraint bounds")


@case(quick=100)
def histories(rng):
    s = solver(rng)
    ms = s.ms
    lb, ub = np.full(s.num, -np.inf), np.full(s.num, np.inf)
    probe(rng, s)
    names = set()
    for _ in range(int(rng.integers(1, 8))):
        k = int(rng.integers(s.num))
        g, n = s.vars[k]
        op = int(rng.integers(4))
        if op == 0 and g != "states_dot":
            v = float(np.exp(rng.uniform(-2, 2)))
            ms.set_var_scale(g, n, v)
            s.scale[g, n] = v
        elif op == 3 and not s.scale:     # an objective of the caller's own
            A, b = rng.normal(size=(s.num, s.num)), rng.normal(size=s.num)
            A = A + A.T
            i, j = np.nonzero(np.ones_like(A))
            ms.add_objective(f"own{len(s.quad)}", BaseObjective(
                s.num, lambda x, A=A, b=b: float(x @ A @ x / 2 + b @ x), lambda x, A=A, b=b: A @ x + b,
                lambda x, A=A, i=i, j=j: A[i, j], (i, j)))
            s.quad.append((A, b))
        elif op == 1:
            lo = float(rng.normal())
            v = [lo, (lo, lo + 1.0), (lo, np.inf), (-np.inf, lo), (lo, lo)][int(rng.integers(5))]
            ms.set_bounds(g, n, v)
            lb[k], ub[k] = v if isinstance(v, tuple) else (v, v)
            b = ms.get_bounds(g, n)
            require(tuple(b) == (lb[k], ub[k]), f"get_bounds {b}")
        elif op == 2:
            w = float(rng.normal())
            if s.objs and rng.integers(3) == 0:         # nearly the weight of another objective of the variable
                k, w = s.objs[int(rng.integers(len(s.objs)))]
                g, n = s.vars[k]
                w *= 1 + 10.0 ** -int(rng.integers(3, 13))
                if (k, w) in names:
                    continue
            if rng.integers(3) == 0:
                w = 1.0
                if (k, w) in names:
                    continue
                nm = ms.add_obj_from_var(g, n)
            else:
                nm = ms.add_obj_from_var(g, n, weight=w)
            names.add((k, w))
            s.objs.append((k, w))
            require(nm in objectives_of(ms), "the returned name is not the objective's")
            if rng.integers(4) == 0:
                ms.delete_objective(nm)
                s.objs.pop()
                names.discard((k, w))
        equal(ms.lb, lb, "lower bounds")
        equal(ms.ub, ub, "upper bounds")
    probe(rng, s)
    return dict(n=s.num, objs=len(s.objs), scaled=len(s.scale))


@case(quick=30)
def rejection(rng):
    s = solver(rng, sizes=(2, 1, 2))
    ms = s.ms
    g, n = s.vars[int(rng.integers(s.num))]
    raises(Exception, lambda: ms.set_bounds(g, n, (1.0, 0.5)), "contradictory bounds were accepted")
    for v in (1.0, -1.0, 1e3):
        raises(Exception, lambda: ms.set_bounds(g, n, (v + abs(v) * 1e-9, v)), "slightly contradictory bounds were accepted")
    raises(Exception, lambda: ms.set_bounds(g, n, (np.inf, -np.inf)), "bounds (inf, -inf) were accepted")
    raises(Exception, lambda: ms.set_bounds(g, "nope", 0.0), "bounds on an unknown variable were accepted")
    raises(Exception, lambda: ms.set_bounds("nope", n, 0.0), "bounds on an unknown group were accepted")
    for v in (0.0, -1.0, float("nan")):
        raises(Exception, lambda: ms.set_var_scale("states", s.names["states"][0], v), f"the scale {v} was accepted")
    raises(KeyError, lambda: ms.set_var_scale("states_dot", s.names["states"][0], 2.0), "states_dot was scaled")
    raises(KeyError, lambda: ms.set_var_scale("states", "nope", 2.0), "an unknown variable was scaled")
    raises(Exception, lambda: ms.add_obj_from_var(g, "nope"), "an objective on an unknown variable was accepted")
    equal(ms.lb, np.full(s.num, -np.inf), "lower bounds after rejected updates")
    equal(ms.ub, np.full(s.num, np.inf), "upper bounds after rejected updates")
    probe(rng, s)
    return dict(g=g)


@case(quick=25)
def solution(rng):
    """Solving a square problem gives a point where the model's equations hold, in unscaled units."""
    s = solver(rng, sizes=(2, 0, 1), residuals=0)
    ms = s.ms
    # states given, the rest follows
    vals = {}
    for n in s.names["states"]:
        v = float(rng.uniform(-1, 1))
        ms.set_bounds("states", n, v)
        vals[n] = v
        if rng.integers(2):
            sc = float(np.exp(rng.uniform(-1, 1)))
            ms.set_var_scale("states", n, sc)
            s.scale["states", n] = sc
    sol, info = ms.solve(init_guess=np.zeros(s.num), print_level=0, tol=1e-9,
                         print_timing_statistics="no", fixed_variable_treatment="make_parameter")
    require(info["status"] in (0, 1), f"status {info['status']}")
    for k, (g, n) in enumerate(s.vars):
        if g == "states":
            close(sol[k], vals[n], f"{n} at the solution", rtol=1e-6, atol=1e-6)
    close(s.model.full_val(sol, 0.0, s.p), np.zeros(s.m), "model equations at the solution", rtol=1e-5, atol=1e-5)
    return dict(n=s.num)

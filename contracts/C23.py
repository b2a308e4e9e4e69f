"""C23: solving hands the solver the scaled problem and returns the unscaled solution."""
import types

from contracts.ocp import *
import lumos.optimal_control.nlp as nlp

assume_note("cyipopt.Problem by contract: it keeps the problem it is constructed with and the options it is given, and "
            "solve returns an arbitrary point and status; add_option raises TypeError for values it does not take.")
assume_note("Callbacks of the problem are those of C04; timing lines of the solver's output file by the bounded run only.")


class Solver:
    """Contract of cyipopt.Problem: records what it is given."""
    made, status, bad, iters = [], 0, None, 0

    def __init__(self, n, m, problem_obj=None, lb=None, ub=None, cl=None, cu=None):
        self.n, self.m, self.obj, self.lb, self.ub, self.cl, self.cu = n, m, problem_obj, lb, ub, cl, cu
        self.options, self.calls = {}, []
        Solver.made.append(self)

    def add_option(self, name, val):
        if name == Solver.bad:
            raise TypeError("option")
        self.options[name] = val

    def solve(self, x, lagrange=[], zl=[], zu=[]):
        self.calls.append((x, lagrange, zl, zu))
        self.obj.intermediate(0, Solver.iters, 1.0, 0.0, 0.0, 0.1, 1.0, 0.0, 1.0, 1.0, 1)
        info = {"x": vec("sol", self.n), "g": vec("con", self.m), "mult_g": vec("mult", self.m),
                "mult_x_L": vec("multL", self.n), "mult_x_U": vec("multU", self.n)}
        return vec("sol", self.n), {"status": Solver.status, "status_msg": b"text", "obj_val": sym("obj"), **info}


nlp.cyipopt = types.SimpleNamespace(Problem=Solver)


class Con:
    """Contract of a constraint component."""

    def __init__(self, n, tag):
        self.num_in, self.num_con, self.nh = n, CTX.size("m" + tag, 0), CTX.size("nh" + tag, 0)
        self.tag = tag

    def set_input_scales(self, s):
        self.scales = s

    def hessian(self, x, lam):
        return vec("H" + self.tag, self.nh)

    def hessianstructure(self):
        return vec("hr" + self.tag, self.nh, "int"), vec("hc" + self.tag, self.nh, "int")


class Obj(Con):
    def objective(self, x):
        return sym("f" + self.tag)

    def gradient(self, x):
        return vec("g" + self.tag, self.num_in)

    def hessian(self, x):
        return vec("H" + self.tag, self.nh)


def fresh_solver(status=0, bad=None):
    Solver.made, Solver.status, Solver.bad = [], status, bad


class Problem(nlp.CompositeProblem):
    def get_init_guess(self):
        return vec("guess", self.num_dec)


def problem(objectives=1):
    n = CTX.size("n", 1)
    p = Problem(n)
    cons = [Con(n, f"c{k}") for k in range(1 + CTX.choose(2))]
    for k, c in enumerate(cons):
        p.add_constraints(f"c{k}", c)
    for k in range(objectives):
        p.add_objective(f"o{k}", Obj(n, f"o{k}"))
    m = const(0)
    for c in cons:
        m = m + c.num_con
    given(p, n, m)
    return p, n, m, cons


def given(p, n, m):
    """Arbitrary bounds and (non-zero) scales."""
    p._dec_var_scales = vec("s", n)
    p.lb, p.ub, p.cl, p.cu = vec("lb", n), vec("ub", n), vec("cl", m), vec("cu", m)


QUIET = [dict(print_level=3), dict(print_timing_statistics="no"), dict(output_file="")]


def check(p, n, m, start, sol, user):
    CTX.require("one solver, one call", len(Solver.made) == 1 and len(Solver.made[0].calls) == 1)
    s = Solver.made[0]
    CTX.require("the problem's own callbacks", s.obj is p)
    CTX.require_eq("number of variables", lift(s.n), n)
    CTX.require_eq("number of constraints", lift(s.m), m)
    x, lagrange, zl, zu = s.calls[0]
    j = idx("j", n)
    sc = read("s", [j])
    for what, got, want in (("lower bound", s.lb, read("lb", [j]) / sc), ("upper bound", s.ub, read("ub", [j]) / sc),
                            ("initial guess", x, read(start, [j]) / sc), ("solution", sol, read("sol", [j]) * sc)):
        if shape_is(what, got, n):
            CTX.require_eq(what, elem(got, j), want)
    r = idx("r", m)
    for what, got in (("cl", s.cl), ("cu", s.cu)):
        if shape_is(what, got, m):
            CTX.require_eq(what, elem(got, r), read(what, [r]))
    for k, v in user.items():
        CTX.require(f"option {k}", s.options.get(k) == v)
    default = p._get_default_ipopt_options()
    CTX.require("the other options are the defaults", all(s.options.get(k) == v for k, v in default.items() if k not in user)
                and set(s.options) == set(default) | set(user))
    CTX.require("Hessian option", s.options.get("hessian_approximation") ==
                user.get("hessian_approximation", p.hessian_approximation))
    return s, lagrange, zl, zu


@goal("the solver gets the scaled problem; the solution is unscaled")
def solving():
    fresh_solver()
    p, n, m, _ = problem(1 + CTX.choose(2))
    p.hessian_approximation = ["exact", "limited-memory"][CTX.choose(2)]
    user = dict(QUIET[CTX.choose(3)])
    if CTX.choose(2):
        user.update(max_iter=7, hessian_approximation="limited-memory", new_option=2.5)
    kw = dict(user)
    own = CTX.choose(2)
    if own:
        kw["init_guess"] = vec("x0", n)
    given_mult = [(), ("lagrange", "zl", "zu"), ("lagrange",), ("zl", "zu"), ("zu",), ("lagrange", "zl")][CTX.choose(6)]
    kw.update({k: vec(k + "0", m if k == "lagrange" else n) for k in given_mult})
    Solver.iters = 12 * CTX.choose(2)
    sol, info = p.solve(**kw)
    s, lagrange, zl, zu = check(p, n, m, "x0" if own else "guess", sol, user)
    CTX.require("information of the solver", info["status"] == 0 and info["num_iter"] == Solver.iters)
    CTX.require_eq("objective value", info["obj_val"], sym("obj"))
    for k, v in dict(lagrange=lagrange, zl=zl, zu=zu).items():
        CTX.require(f"multipliers to start with: {k}", v is kw[k] if k in given_mult else len(v) == 0)
    CTX.require("objectives as before", all(k.startswith("o") for k in p._objectives))


@goal("twice: the second solve has its own guess, bounds and scales")
def again():
    fresh_solver()
    p, n, m, _ = problem(CTX.choose(2))
    warm = {"warm_start_init_point": "yes", "mu_init": 1e-3} if CTX.choose(2) else {}
    first = {k: vec(k + "9", m if k == "lagrange" else n) for k in ("lagrange", "zl", "zu")} if CTX.choose(2) else {}
    p.solve(init_guess=vec("x9", n), max_iter=3, **QUIET[0], **first, **warm)
    fresh_solver()
    given(p, n, m)
    p.lb, p._dec_var_scales = vec("lb2", n), vec("s2", n)
    sol, _ = p.solve(init_guess=vec("x0", n), **QUIET[1], **warm)
    s = Solver.made[0]
    CTX.require("no multipliers of the first solve", all(len(v) == 0 for v in s.calls[0][1:]))
    j = idx("j", n)
    CTX.require_eq("lower bound", elem(s.lb, j), read("lb2", [j]) / read("s2", [j]))
    CTX.require_eq("guess", elem(s.calls[0][0], j), read("x0", [j]) / read("s2", [j]))
    CTX.require_eq("solution", elem(sol, j), read("sol", [j]) * read("s2", [j]))
    CTX.require("options of the first solve are gone", s.options["max_iter"] == 100)


@goal("without objectives: the zero objective, so that any feasible point is optimal")
def feasibility():
    fresh_solver()
    p, n, m, cons = problem(0)
    sol, _ = p.solve(**QUIET[CTX.choose(3)])
    x = vec("x", n)
    CTX.require_eq("objective", lift(p.objective(x)), const(0))
    g = p.gradient(x)
    if shape_is("gradient", g, n):
        CTX.require_eq("gradient", elem(g, idx("j", n)), const(0))
    # the Hessian is that of the constraints
    v = p.hessian(x, vec("lam", m), sym("of"))
    rows, cols = p.hessianstructure()
    u, w = (lambda i: read("u", [i])), (lambda i: read("w", [i]))
    want = const(0)
    t = fresh("b")
    for c in cons:
        hr, hc = read("hr" + c.tag, [t], "int"), read("hc" + c.tag, [t], "int")
        want = want + SUM([(t, c.nh)], read("H" + c.tag, [t]) * u(hr) * w(hc) * iverson(ge0(hc - hr)))
    CTX.require_eq("Hessian", weak("Hessian", v, rows, cols, u, w), want)


@goal("errors: a failed status and refused options are raised")
def errors():
    fresh_solver(status=-13)
    p, n, m, _ = problem()
    expect_raises("failed status", RuntimeError, p.solve, **QUIET[0])
    fresh_solver(bad="max_iter")
    expect_raises("refused option", TypeError, p.solve, **QUIET[0])
    fresh_solver(status=[-1, -2, 1, 2][CTX.choose(4)])
    sol, info = p.solve(**QUIET[0])
    CTX.require("any other status is reported", info["status"] == Solver.status)


@goal("optimal control problems: the same, from the given or the problem's own guess", timeout=600)
def control():
    w = world(CTX.choose(2) == 1, [2, "M"][CTX.choose(2)])
    p = w.ocp
    fresh_solver()
    n, m = lift(p.num_dec), lift(p.num_con)
    given(p, n, m)
    p.get_init_guess = lambda: vec("guess", n)
    p._log_final_iter = lambda: None
    p.backend = "casadi"
    own = CTX.choose(2)
    args = (vec("x0", n),) if own else ()
    user = dict(print_level=3, tol=0.5)
    sol, info = p.solve(*args, **user)
    check(p, n, m, "x0" if own else "guess", sol, user)


@canary("an unscaled guess must be refuted")
def wrong():
    fresh_solver()
    p, n, m, _ = problem()
    p.solve(**QUIET[0])
    j = idx("j", n)
    CTX.require_eq("guess", elem(Solver.made[0].calls[0][0], j), read("guess", [j]))

"""C20: the standalone model solver formulates the model's equations."""
from contracts.common import *
from contracts import ocp as _ocp
from lumver.seq import val_eq
import lumos.optimal_control.model_solver as ms

assume_note("The model is taken by its contract: implicit functions of one stage (C13) that casadi evaluates (C13, C11).")


class Nz:
    def __init__(self, v):
        self.v = v

    def nonzeros(self):
        return self.v


class Flat:
    def __init__(self, vec):
        self.vec = vec

    def tree_ravel(self):
        return self.vec, None


def rec(name, n, log):
    def f(*a):
        log[name] = a
        return arr(name, n) if isinstance(n, (int, P)) else n
    return f


class Unit:
    def __init__(self, w):
        self.w = w
        self.num_in, self.num_con = w.V, w.m

    def constraints(self, *a):
        self.w.log["c"] = a
        return vec("C", self.w.m)

    def jacobianstructure(self):
        return vec("jr", self.w.nj, "int"), vec("jc", self.w.nj, "int")

    def hessianstructure(self):
        return vec("hr", self.w.nh, "int"), vec("hc", self.w.nh, "int")


class Model(_ocp.Model):
    def __init__(self, order, w):
        super().__init__(order)
        self.w = w

    @property
    def num_implicit_var(self):
        return self.w.V

    def get_recursive_params(self):
        return Flat(self.w.params)

    def get_var_index_in_flat(self, g, n):
        """Contract of the model's flat index (C13)."""
        return self.w.off[g] + self.get_group_names(g).index(n)

    def make_model_algebra_cons(self, backend):
        w = self.w
        w.backend = backend

        def jac(*a):
            w.log["j"] = a
            return Nz(vec("J", w.nj))

        def hess(*a):
            w.log["h"] = a
            return Nz(vec("H", w.nh))
        return dict(jacobian=jac, hessian=hess, constraints=None)


ORDERS = [None, ("states_dot", "con_outputs", "states", "inputs"), ("inputs", "states", "con_outputs", "states_dot")]


class W:
    pass


def solver():
    w = W()
    w.log = {}
    w.params = object()
    m = w.model = Model(ORDERS[CTX.choose(3)], w)
    w.n = m.n
    w.off, V = {}, const(0)
    for g in m.implicit_inputs:
        w.off[g] = V
        V = V + w.n[g]
    w.V, w.m = V, m.num_implicit_res
    w.nj, w.nh = CTX.size("nj", 0), CTX.size("nh", 0)
    for a in ("jc", "hr", "hc"):
        CTX.array_bounds(a, lambda *i: (const(0), V - 1))
    CTX.array_bounds("jr", lambda *i: (const(0), w.m - 1))
    m.model_algebra = Unit(w)
    w.con = ["o"]
    w.ms = ms.ModelSolver(m, "casadi", con_outputs=w.con)
    return w


def var(w, tag="v", groups=None):
    groups = groups or w.model.implicit_inputs
    g = groups[CTX.choose(len(groups))]
    if not CTX.prove(ge0(w.n[g] - 1)):
        CTX.assume(ge0(w.n[g] - 1))
    k = CTX.index(tag, w.n[g])
    return g, k, w.model.get_group_names(g).get(k)


@goal("decision vector and positions", timeout=300)
def layout_():
    w = solver()
    CTX.require_eq("decision variables", lift(w.ms.num_dec), w.V)
    CTX.require_eq("constraints", lift(w.ms.num_con), w.m)
    g, k, n = var(w)
    CTX.require_eq("position", lift(w.ms.get_var_idx(g, n)), w.off[g] + k)
    x = vec("x", w.V)
    CTX.require_eq("value", lift(w.ms.get_var(x, g, n)), read("x", [w.off[g] + k]))
    seq = as_seq(w.ms.input_names)
    CTX.require_eq("number of names", seq.length(), w.V)
    got = seq.get(w.off[g] + k)
    CTX.require("name", bool(val_eq(got, SymStr([g + ".", *n.parts]))))


def scales(w):
    """Any earlier scales: the mapping and the resulting arrays are arbitrary."""
    from lumver.seq import SymMap
    for g in w.model.implicit_inputs:
        nm = "old_" + g
        CTX.array_bounds(nm, lambda *i: (const(0), None))
        w.ms._var_scales[g] = SymMap(w.model.get_group_names(g), SymSeq([("map", w.n[g], lambda k, nm=nm: read(nm, [k]))]))
    w.ms._dec_var_scales = vec("olddec", w.V)


def sized(w, old):
    """A scale update; returns the scale of variable (g, k) afterwards."""
    g, k, n = var(w, "sv", ("states", "inputs", "con_outputs"))
    v = sym("sv_v")
    CTX.assume(ge0(v))
    CTX.assume(bnot(eq(v, const(0))))
    w.ms.set_var_scale(g, n, v)

    def scale(h, j):
        o = read("old_" + h, [j]) if old else const(1)
        if h != g:
            return o
        return v if bool(eq(lift(j), lift(k))) else o
    return scale


def con_scale(w, scale):
    """A generic constraint row and its scale."""
    c = CTX.choose(3)
    g = ("states", "con_outputs", "residuals")[c]
    o = [const(0), w.n["states"], w.n["states"] + w.n["con_outputs"]][c]
    j = idx("row", w.n[g])
    return o + j, const(1) if c == 2 else scale(g, j)


@goal("scales after any history and an update: variables, constraints, components", timeout=300)
def scaling():
    w = solver()
    if CTX.choose(2):
        scales(w)
        scale = sized(w, True)
    else:
        scale = lambda g, j: const(1)
    con = w.ms._constraints["model_algebra"]
    if CTX.choose(2):
        g, k, n = var(w)
        shape_is("scales", w.ms._dec_var_scales, w.V)
        CTX.require_eq("variable scale", lift(elem(w.ms._dec_var_scales, w.off[g] + k)), scale(g, k))
        CTX.require_eq("in the constraints", lift(elem(con._input_scales, w.off[g] + k)), scale(g, k))
    else:
        r, s = con_scale(w, scale)
        shape_is("constraint scales", con._con_scales, w.m)
        CTX.require_eq("constraint scale", lift(elem(con._con_scales, r)), s)


def arg(name, a, w, scale):
    """The first argument handed to the model's function is the unscaled point."""
    g, k, n = var(w, "av")
    shape_is(name, a, w.V)
    CTX.require_eq(name, lift(elem(a, w.off[g] + k)), read("x", [w.off[g] + k]) * scale(g, k))


@goal("constraints: the model's residuals at mesh 0 and its parameters, scaled", timeout=300)
def con_values():
    w = solver()
    CTX.require("casadi functions", w.backend == "casadi")
    CTX.require("constrained outputs", w.model.calls[0] == ("con_outputs", w.con))
    scale = sized(w, False)
    con = w.ms._constraints["model_algebra"]
    x, lam = vec("x", w.V), vec("lam", w.m)
    r = con.constraints(x)
    shape_is("values", r, w.m)
    j, s = con_scale(w, scale)
    CTX.require_eq("value * scale", lift(elem(r, j)) * s, read("C", [j]))
    a = w.log["c"]
    CTX.require_eq("mesh", lift(a[1]), const(0))
    CTX.require("parameters", a[2] is w.params and len(a) == 3)
    arg("point", a[0], w, scale)


@goal("constraint Jacobian and Hessian: the model's, with the scales of rows and columns", timeout=300)
def con_derivatives():
    w = solver()
    con = w.ms._constraints["model_algebra"]
    con.set_input_scales(vec("d", w.V))
    con.set_con_scales(vec("c", w.m))
    x, lam = vec("x", w.V), vec("lam", w.m)
    d, c = (lambda i: read("d", [i])), (lambda i: read("c", [i]))
    if CTX.choose(2):
        rows, cols = con.jacobianstructure()
        v = con.jacobian(x)
        e = idx("e", w.nj)
        CTX.require_eq("row", lift(elem(rows, e)), read("jr", [e], "int"))
        CTX.require_eq("column", lift(elem(cols, e)), read("jc", [e], "int"))
        r, q = read("jr", [e], "int"), read("jc", [e], "int")
        shape_is("values", v, w.nj)
        CTX.require_eq("value", lift(elem(v, e)) * c(r), read("J", [e]) * d(q))
        a = w.log["j"]
        pt, mesh, p = a
    else:
        rows, cols = con.hessianstructure()
        v = con.hessian(x, lam)
        e = idx("e", w.nh)
        r, q = read("hr", [e], "int"), read("hc", [e], "int")
        CTX.require_eq("row", lift(elem(rows, e)), r)
        CTX.require_eq("column", lift(elem(cols, e)), q)
        shape_is("values", v, w.nh)
        CTX.require_eq("value", lift(elem(v, e)), read("H", [e]) * d(r) * d(q))
        pt, mult, mesh, p = w.log["h"]
        j = idx("mj", w.m)
        shape_is("multipliers", mult, w.m)
        CTX.require_eq("multiplier", lift(elem(mult, j)) * c(j), read("lam", [j]))
    CTX.require_eq("mesh", lift(mesh), const(0))
    CTX.require("parameters", p is w.params)
    k = idx("k", w.V)
    CTX.require_eq("point", lift(elem(pt, k)), read("x", [k]) * d(k))


@goal("all constraints are equalities; bounds start infinite", timeout=300)
def initial():
    w = solver()
    shape_is("lower", w.ms.cl, w.m)
    shape_is("upper", w.ms.cu, w.m)
    j = idx("j", w.m)
    CTX.require_eq("lower", lift(elem(w.ms.cl, j)), const(0))
    CTX.require_eq("upper", lift(elem(w.ms.cu, j)), const(0))
    k = idx("k", w.V)
    import numpy as np
    CTX.require_eq("lower bound", lift(elem(w.ms.lb, k)), lift(-np.inf))
    CTX.require_eq("upper bound", lift(elem(w.ms.ub, k)), lift(np.inf))


@goal("a bound update changes exactly its variable, after any history", timeout=300)
def bounds():
    w = solver()
    w.ms.lb, w.ms.ub = vec("lb0", w.V), vec("ub0", w.V)
    g, k, n = var(w)
    lo, hi = sym("lo"), sym("hi")
    if CTX.choose(2):
        CTX.assume(ge0(hi - lo))
        w.ms.set_bounds(g, n, (lo, hi))
    else:
        hi = lo
        w.ms.set_bounds(g, n, lo)
    a, b = w.ms.get_bounds(g, n)
    CTX.require_eq("read back: lower", lift(a), lo)
    CTX.require_eq("read back: upper", lift(b), hi)
    q = idx("q", w.V)
    same = bool(eq(q, w.off[g] + k))
    CTX.require_eq("lower", lift(elem(w.ms.lb, q)), lo if same else read("lb0", [q]))
    CTX.require_eq("upper", lift(elem(w.ms.ub, q)), hi if same else read("ub0", [q]))


@goal("contradictory bounds are refused and change nothing", timeout=300)
def contradictory():
    w = solver()
    w.ms.lb, w.ms.ub = vec("lb0", w.V), vec("ub0", w.V)
    g, k, n = var(w)
    lo, hi = sym("lo"), sym("hi")
    CTX.assume(ge0(lo - hi))
    CTX.assume(bnot(eq(lo, hi)))
    must_raise("refused", AssertionError, w.ms.set_bounds, g, n, (lo, hi))
    q = idx("q", w.V)
    CTX.require_eq("lower", lift(elem(w.ms.lb, q)), read("lb0", [q]))
    CTX.require_eq("upper", lift(elem(w.ms.ub, q)), read("ub0", [q]))


@goal("scales that are not positive, other groups and unknown names are refused", timeout=300)
def refused():
    w = solver()
    g, k, n = var(w, "v", ("states", "inputs", "con_outputs"))
    c = CTX.choose(3)
    if c == 0:
        v = sym("v_")
        CTX.assume(ge0(-v))
        must_raise("scale", AssertionError, w.ms.set_var_scale, g, n, v)
    elif c == 1:
        must_raise("group", KeyError, w.ms.set_var_scale, ("states_dot", "outputs", "nope")[CTX.choose(3)], n, 2.0)
    else:
        must_raise("name", KeyError, w.ms.set_var_scale, g, "nope", 2.0)


def objective(w, tag, weight):
    g = w.model.implicit_inputs[CTX.choose(4)]
    if not CTX.prove(ge0(w.n[g] - 1)):
        CTX.assume(ge0(w.n[g] - 1))
    k = CTX.index(tag, w.n[g])
    n = w.model.get_group_names(g).get(k)
    return g, k, w.ms.add_obj_from_var(g, n, weight)


@goal("an objective on a variable: weight times the unscaled variable, before and after scale updates", timeout=600)
def objectives():
    w = solver()
    early = CTX.choose(2) == 1
    if not early:
        scale = sized(w, False)
    c = sym("c")
    g, k, nm = objective(w, "ov", c)
    if early:
        scale = sized(w, False)
    CTX.require("named", nm in w.ms._objectives and len(w.ms._objectives) == 1)
    x = vec("x", w.V)
    q = w.off[g] + k
    CTX.require_eq("value", lift(w.ms.objective(x)), c * read("x", [q]) * scale(g, k))
    gr = w.ms.gradient(x)
    shape_is("gradient", gr, w.V)
    i = idx("i", w.V)
    CTX.require_eq("gradient", lift(elem(gr, i)), c * scale(g, k) if bool(eq(i, q)) else const(0))
    o = w.ms._objectives[nm]
    rows, cols = o.hessianstructure()
    CTX.require("empty Hessian", len(rows) == 0 and len(cols) == 0)


@canary("scaling by the square of the scale must be refuted")
def wrong():
    w = solver()
    scale = sized(w, False)
    con = w.ms._constraints["model_algebra"]
    con.constraints(vec("x", w.V))
    g, k, n = var(w, "av")
    CTX.require_eq("point", lift(elem(w.log["c"][0], w.off[g] + k)), read("x", [w.off[g] + k]) * scale(g, k) * scale(g, k))

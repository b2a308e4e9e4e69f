"""C10: the condensed problem is the full problem with the state derivatives eliminated."""
import types

from contracts.ocp import *
from lumver import symnp
from lumver.terms import _divmod, tob
from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig

assume_note("scipy.sparse matrices by contract: the matrix they stand for; indexing, product, sum, transpose and vstack "
            "are those of dense matrices; rows selected by a mask keep their order; nonzero() lists positions that "
            "include every entry that is not identically zero (generic position of the random point it is taken at).")
assume_note("The two components it is made of are taken by contract: model_algebra gives f - x_dot, then the remaining "
            "rows, stage by stage, with its exact Jacobian and Hessian (C05, C13, C27); continuity and its derivatives "
            "as in C01. f does not depend on x_dot. With a free mesh scale: f does not depend on the mesh explicitly.")

E = lambda t, *k: lift(elem(t, *k))


class Sparse:
    """Contract of a scipy sparse matrix."""

    def __init__(self, t, mask=None):
        self.t, self.mask = t, mask

    shape = property(lambda self: self.t.shape)

    @property
    def data(self):
        return vec("data", CTX.size("nnz", 0))

    T = property(lambda self: Sparse(symnp.transpose(self.t)))

    def __matmul__(self, o):
        r = symnp.matmul(self.t, o.t if isinstance(o, Sparse) else o)
        return Sparse(r) if isinstance(o, Sparse) else r

    def __add__(self, o):
        return Sparse(self.t + o.t)

    __radd__ = __add__

    def __sub__(self, o):
        return Sparse(self.t - o.t)

    def __neg__(self):
        return Sparse(-self.t)

    def tocsc(self):
        return self

    tocsr = tocoo = tocsc

    def toarray(self):
        return self.t

    def __getitem__(self, key):
        a, b = key
        if isinstance(a, T) and a.kind == "bool":
            if not (isinstance(b, slice) and b == slice(None)) or self.mask is None:
                raise Unsupported("selection by a mask")
            S, m, lo = self.mask
            s, k = fresh("s"), fresh("k")
            CTX.require_eq("mask: one entry per row", a.spaces[0].size(), S * m)
            with CTX.local_vars([(s, S), (k, m)]):
                from lumver.tensor import local_cases
                for cond, v in local_cases(lambda: tob(a.at(s * m + k))):
                    with CTX.assuming(cond):
                        same = CTX.prove(v) and CTX.prove(ge0(k - lo)) or (
                            CTX.prove(bnot(v)) and CTX.prove(ge0(lo - 1 - k)))
                        CTX.require("mask: the rows from the given one on, at every stage", same)
            return Sparse(T([Prod(Atm(S), Atm(m - lo)), self.t.spaces[1]],
                            lambda r, c: self.t.at(lift(r[0]) * m + lo + lift(r[1]), self.t.spaces[1].lin(c)), "real"))
        if isinstance(a, T) and isinstance(b, T):
            # pairwise: a matrix of one row
            return T([Atm(1), Atm(a.spaces[0].size())],
                     lambda _, e: self.t.at(lift(a.at(lift(e))), lift(b.at(lift(e)))), "real")
        if isinstance(a, T) and not isinstance(b, slice):
            r = self.t[a, b]
            return Sparse(symnp.reshape(r, (r.spaces[0].size(), 1)))
        return Sparse(self.t[a, b])

    def nonzero(self):
        Sparse.structures.append(self.t)
        # positions of continuity rows, then of the remaining rows
        w = Sparse.w
        n1, n2 = CTX.size("nz1", 0), CTX.size("nz2", 0)
        for a, n in (("Ri", w.N), ("Rl", w.M - 1), ("Rj", w.ns), ("Rs", w.S), ("Rr", w.r),
                     ("C", self.t.spaces[1].size())):
            CTX.array_bounds(a, lambda *c, n=n: (const(0), n - 1))
        up = lambda e: (read("Ri", [e], "int") * (w.M - 1) + read("Rl", [e], "int")) * w.ns + read("Rj", [e], "int")
        lo = lambda e: w.nc + read("Rs", [e], "int") * w.r + read("Rr", [e], "int")
        return symnp.concatenate([T([Atm(n1)], up, "int"), T([Atm(n2)], lo, "int")]), vec("C", n1 + n2, "int")


def vstack(ms, **k):
    return Sparse(symnp.concatenate([m.t for m in ms]))


class Numpy:
    """numpy with opaque random numbers."""
    random = types.SimpleNamespace(randn=lambda n: vec("random", n))

    def __init__(self, np):
        self.np = np

    def __getattr__(self, name):
        return getattr(self.np, name)


class Component:
    """One of the two components, by contract; remembers the points it was asked at."""

    def __init__(self, tag, rows, w):
        self.tag, self.rows, self.w, self.calls, self.all = tag, rows, w, [], []
        self.mask = (w.S, w.m, w.n["states"]) if tag == "A" else None

    def ask(self, what, *a):
        self.calls.append((what, *a))
        self.all.append((what, *a))
        return self.calls_name(what)

    def calls_name(self, what):
        """Name of the last answer of this kind."""
        n = sum(c[0] == what for c in self.all) - 1
        return f"{self.tag}{what}{n}"

    def constraints(self, x):
        return vec(self.ask("c", x), self.rows)

    def get_csc_jacobian(self, x):
        return Sparse(arr(self.ask("J", x), self.rows, self.w.num), self.mask)

    def get_csc_hessian(self, x, mult):
        return Sparse(arr(self.ask("H", x, mult), self.w.num, self.w.num))

    def hessian(self, x, mult):
        return vec(self.ask("h", x, mult), self.w.nh)

    def hessianstructure(self):
        for a in ("HR", "HC"):
            CTX.array_bounds(a, lambda *c: (const(0), self.w.num - 1))
        return vec("HR", self.w.nh, "int"), vec("HC", self.w.nh, "int")


def condensed(free=None, points=False):
    """The real condensed component over the two contracts."""
    fixed = CTX.choose(2) == 1 if free is None else not free
    w = world(fixed, [2, "M"][CTX.choose(2)], points=points)
    w.ns, w.r = w.n["states"], w.m - w.n["states"]
    w.nc = w.N * (w.M - 1) * w.ns
    w.nh = CTX.size("nh", 0)
    o = w.ocp
    w.A, w.C = Component("A", w.S * w.m, w), Component("C", w.nc, w)
    o._constraints["model_algebra"], o._constraints["continuity"] = w.A, w.C
    o.is_condensed = True
    Sparse.structures, Sparse.w = [], w

    def forward(states, inputs, mesh, params):
        w.forward = (states, inputs, mesh, params)
        return types.SimpleNamespace(states_dot=arr("F", w.S, w.ns), outputs=None, con_outputs=None, residuals=None)
    w.model.batched_forward = forward
    return w


def building(w, f, *a):
    keep = smo.sparse, smo.np
    smo.sparse, smo.np = types.SimpleNamespace(vstack=vstack), Numpy(smo.np)
    try:
        return f(*a)
    finally:
        smo.sparse, smo.np = keep


def build(w):
    building(w, w.ocp._build_condensed_model_algebra)
    c = w.ocp._constraints
    CTX.require("components", set(c) == {"model_algebra"} and c["model_algebra"] is not w.A)
    w.con = c["model_algebra"]
    CTX.require_eq("number of constraints", lift(w.con.num_con), w.nc + w.S * w.r)
    CTX.require_eq("number of inputs", lift(w.con.num_in), w.num)
    w.A.calls, w.C.calls = [], []
    return w


def xd(w, s, j):
    return s * w.V + w.off["states_dot"] + j


def stage_entry(w, what, x, f):
    """Entry s*V + off + j of x, group by group, is f(g, s, j)."""
    shape_is(what, x, w.num)
    g = w.model.implicit_inputs[CTX.choose(4)]
    s, j = idx("ps", w.S), idx("pj_" + g, w.n[g])
    p = s * w.V + w.off[g] + j
    CTX.require_eq(what, E(x, p), f(g, s, j, read("x", [p])))
    if not w.fixed:
        CTX.require_eq(what + ": mesh scale", E(x, w.num - 1), read("x", [w.num - 1]))


@goal("values: continuity rows with the model's state derivatives, then the remaining rows stage by stage", timeout=600)
def values():
    w = build(condensed(points=CTX.choose(2) == 1))
    c = building(w, w.con.constraints, vec("x", w.num))
    shape_is("constraints", c, w.nc + w.S * w.r)
    CTX.require("the model is evaluated once, no continuity", len(w.A.calls) == 1 and not w.C.calls)
    alg = lambda s, j: read("Ac0", [s * w.m + j])
    k = CTX.choose(3)
    if k == 0:
        stage_entry(w, "point of the model's evaluation", w.A.calls[0][1],
                    lambda g, s, j, x: const(0) if g == "states_dot" else x)
    elif k == 1:
        i, l, j = idx("i", w.N), idx("l", w.M - 1), idx("j", w.ns)
        h = w.length(i) * w.mesh_scale()
        want = ssum(w.M, lambda k: read("A", [l, k]) * X(w, "states", i, k, j)) - h * ssum(
            w.M, lambda k: read("B", [l, k]) * alg(i * (w.M - 1) + k, j))
        CTX.require_eq("continuity row", E(c, (i * (w.M - 1) + l) * w.ns + j), want)
    else:
        s, r = idx("s", w.S), idx("r", w.r)
        CTX.require_eq("remaining row", E(c, w.nc + s * w.r + r), alg(s, w.ns + r))


def big(w, R, C, cj, aj):
    """Entry (R, C) of the condensed Jacobian by the chain rule."""
    if bool(ge0(w.nc - 1 - R)):
        return read(cj, [R, C]) + ssum(w.S, w.ns, lambda s, j: read(cj, [R, xd(w, s, j)]) * read(aj, [s * w.m + j, C]))
    s, r = _divmod(R - w.nc, w.r)
    return read(aj, [s * w.m + w.ns + r, C])


def true_point(w, what, x):
    """The decision variables with the model's state derivatives (free mesh scale)."""
    if w.fixed:
        # the continuity Jacobian is constant (C01)
        return
    stage_entry(w, what, x, lambda g, s, j, old: read("F", [s, j]) if g == "states_dot" else old)
    st, inp, mesh, par = w.forward
    s = idx("fs", w.S)
    for g, t in (("states", st), ("inputs", inp)):
        shape_is(g + " of the model", t, w.S, w.n[g])
        j = idx("fj_" + g, w.n[g])
        CTX.require_eq(g + " of the model", E(t, s, j), read("x", [s * w.V + w.off[g] + j]))
    shape_is("mesh of the model", mesh, w.S)
    s = const(0) if CTX.choose(2) else idx("fi", w.N) * (w.M - 1) + idx("fk", w.M - 1) + 1
    CTX.require_eq("mesh of the model", E(mesh, s), E(w.ocp._flat_normalized_mesh, s) * w.mesh_scale())
    CTX.require("parameters of the model", par is w.ocp._params)


@goal("Jacobian: the chain rule through the state derivatives, at the right points", timeout=600)
def jacobian():
    w = build(condensed())
    CTX.require("one structure", len(Sparse.structures) == 1)
    c = CTX.choose(3)
    if c == 0:
        # the structure is that of the values
        t = Sparse.structures[0]
        shape_is("matrix of the structure", t, w.nc + w.S * w.r, w.num)
        C = idx("col", w.num)
        if CTX.choose(2):
            R = (idx("i", w.N) * (w.M - 1) + idx("l", w.M - 1)) * w.ns + idx("j", w.ns)
            want = big(w, R, C, "CJ0", "AJ0")
        else:
            i, r = idx("s", w.S), idx("r", w.r)
            R = w.nc + i * w.r + r
            want = read("AJ0", [i * w.m + w.ns + r, C])
        CTX.require_eq("matrix of the structure", E(t, R, C), want)
        return
    v = building(w, w.con.jacobian, vec("x", w.num))
    rows, cols = w.con.jacobianstructure()
    nz = as_size(rows)
    shape_is("values", v, nz)
    CTX.require_eq("columns", as_size(cols), nz)
    if c == 1:
        cj, aj = w.C.calls_name("J"), w.A.calls_name("J")
        if CTX.choose(2):
            e = idx("e1", sym("nz1", "int"))
            want = big(w, E(rows, e), E(cols, e), cj, aj)
        else:
            i = idx("e2", sym("nz2", "int"))
            e = sym("nz1", "int") + i
            want = read(aj, [read("Rs", [i], "int") * w.m + w.ns + read("Rr", [i], "int"), E(cols, e)])
        CTX.require_eq("value", E(v, e), want)
    else:
        pa = [a[1] for a in w.A.calls if a[0] == "J"]
        pc = [a[1] for a in w.C.calls if a[0] == "J"]
        CTX.require("one evaluation of each component", len(pa) == 1 and len(pc) == 1)
        g = w.model.implicit_inputs[CTX.choose(4)]
        if g != "states_dot":
            s, j = idx("qs", w.S), idx("qj_" + g, w.n[g])
            p = s * w.V + w.off[g] + j
            CTX.require_eq("point of the model's Jacobian", E(pa[0], p), read("x", [p]))
        if not w.fixed:
            CTX.require_eq("point of the model's Jacobian: mesh scale", E(pa[0], w.num - 1), read("x", [w.num - 1]))
        true_point(w, "point of the continuity Jacobian", pc[0])


def as_size(t):
    return t.spaces[0].size()


@goal("state derivatives: the condensed Jacobian vanishes there", timeout=600)
def no_dependence():
    """By the contract of the model rows (f - x_dot) the chain rule cancels the continuity rows' own entries."""
    w = build(condensed())
    R, s, j = idx("row", w.nc), idx("s", w.S), idx("j", w.ns)
    minus = lambda s2, j2: -iverson(band(eq(s2, s), eq(j2, j)))
    got = read("CJ", [R, xd(w, s, j)]) + ssum(w.S, w.ns, lambda s2, j2: read("CJ", [R, xd(w, s2, j2)]) * minus(s2, j2))
    CTX.require_eq("entry", got, const(0))


@goal("Hessian: the model's Hessian under the transferred multipliers, and the mesh scale's column", timeout=600)
def hessian():
    w = build(condensed())
    v = building(w, w.con.hessian, vec("x", w.num), vec("lam", w.nc + w.S * w.r))
    rows, cols = w.con.hessianstructure()
    extra = const(0) if w.fixed else w.num
    shape_is("values", v, w.nh + extra)
    shape_is("rows", rows, w.nh + extra)
    shape_is("columns", cols, w.nh + extra)
    lam_c = lambda i, l, j: read("lam", [(i * (w.M - 1) + l) * w.ns + j])
    calls = [c for c in w.A.calls if c[0] == "h"]
    CTX.require("the model's Hessian once", len(calls) == 1)
    c = CTX.choose(4)
    if c == 0:
        e = idx("e", w.nh)
        CTX.require_eq("row", E(rows, e), read("HR", [e]))
        CTX.require_eq("column", E(cols, e), read("HC", [e]))
        CTX.require_eq("value", E(v, e), read("Ah0", [e]))
        g = w.model.implicit_inputs[CTX.choose(4)]
        if g != "states_dot":
            s, j = idx("qs", w.S), idx("qj_" + g, w.n[g])
            p = s * w.V + w.off[g] + j
            CTX.require_eq("point of the model's Hessian", E(calls[0][1], p), read("x", [p]))
    elif c == 1:
        m = calls[0][2]
        shape_is("multipliers of the model", m, w.S * w.m)
        j = idx("j", w.ns)
        # the intervals stage s belongs to, and its place in them
        if CTX.choose(2):
            s, at = const(0), [(const(0), const(0))]
        else:
            i, k = idx("i", w.N), idx("k", w.M - 1) + 1
            s, at = i * (w.M - 1) + k, [(i, k)]
            if bool(eq(k, w.M - 1)) and bool(ge0(w.N - 2 - i)):
                at.append((i + 1, const(0)))
        want = const(0)
        for i, k in at:
            want = want - w.length(i) * w.mesh_scale() * ssum(
                w.M - 1, lambda l, i=i, k=k: read("B", [l, k]) * lam_c(i, l, j))
        CTX.require_eq("multiplier of the state derivatives", E(m, s * w.m + j), want)
    elif c == 2:
        m = calls[0][2]
        r = idx("r", w.r)
        s = const(0) if CTX.choose(2) else idx("i", w.N) * (w.M - 1) + idx("k", w.M - 1) + 1
        CTX.require_eq("multiplier of the remaining rows", E(m, s * w.m + w.ns + r),
                       read("lam", [w.nc + s * w.r + r]))
    elif not w.fixed:
        g = w.model.implicit_inputs[CTX.choose(4)]
        s, j = idx("s", w.S), idx("j_" + g, w.n[g])
        p = s * w.V + w.off[g] + j
        CTX.require_eq("row of the mesh entries", E(rows, w.nh + p), p)
        CTX.require_eq("column of the mesh entries", E(cols, w.nh + p), w.num - 1)
        aj, ch = w.A.calls_name("J"), w.C.calls_name("H")
        want = const(0) if g == "states_dot" else ssum(w.S, w.ns, lambda t, i: read(
            aj, [t * w.m + i, p]) * read(ch, [xd(w, t, i), w.num - 1]))
        CTX.require_eq("mesh entry", E(v, w.nh + p), want)
        mult = [c for c in w.C.calls if c[0] == "H"][0][2]
        q = (idx("qi", w.N) * (w.M - 1) + idx("ql", w.M - 1)) * w.ns + idx("qj", w.ns)
        shape_is("multipliers of continuity", mult, w.nc)
        CTX.require_eq("multipliers of continuity", E(mult, q), read("lam", [q]))


# ------------------------------------------------------------------------- construction
class BuiltFixed(fmo.FixedMeshOCP):
    def _build_condensed_model_algebra(self):
        self.built = getattr(self, "built", 0) + 1

    def set_scales(self, s):
        self.scaled = s


class Built(smo.ScaledMeshOCP):
    def _build_condensed_model_algebra(self):
        self.built = getattr(self, "built", 0) + 1

    def set_scales(self, s):
        self.scaled = s


def scalar_bounds(tag):
    lo, hi = sym(tag + "_lo"), sym(tag + "_hi")
    CTX.assume(ge0(hi - lo))
    return lo, hi


@goal("construction: the state derivatives are fixed to zero whatever their own bounds, other bounds and conditions "
      "stand, the caller's configuration stays as it was", timeout=900)
def construction():
    fixed = CTX.choose(2) == 1
    g = ("states", "inputs", "con_outputs", "states_dot")[CTX.choose(4)]
    with_bc = g in ("states", "inputs") and CTX.choose(2) == 1
    made = {}
    import numpy as np
    import numpy as np

    def cfg(w):
        if not CTX.prove(ge0(w.n[g] - 1)):
            CTX.assume(ge0(w.n[g] - 1))
        k = CTX.index("bk_" + g, w.n[g])
        name = lambda w, g, k: w.model.names._asdict()[g].get(k)
        lo, hi = scalar_bounds("b")
        made.update(k=k, lo=lo, hi=hi, bounds=(BoundConfig(g, name(w, g, k), (lo, hi)),), conditions=())
        if with_bc:
            made["s"], made["v"] = CTX.index("bs", w.S), sym("v")
            made["conditions"] = (BoundaryConditionConfig(made["s"], g, name(w, g, k), made["v"]),)
        return {"bounds": made["bounds"], "boundary_conditions": made["conditions"]}
    w = world(fixed, 2, orders=False, cls=BuiltFixed if fixed else Built, late=cfg, is_condensed=True)
    CTX.require("the condensed constraints are built once", w.ocp.built == 1)
    CTX.require("the caller's bounds are left alone", w.config.bounds is made["bounds"] and len(made["bounds"]) == 1)
    CTX.require("the caller's conditions are left alone", w.config.boundary_conditions is made["conditions"]
                and len(made["conditions"]) == int(with_bc))
    s, k = idx("s", w.S), idx("k", w.n["states"])
    p = s * w.V + w.off["states_dot"] + k
    CTX.require_eq("state derivative: lower bound", E(w.ocp.lb, p), const(0))
    CTX.require_eq("state derivative: upper bound", E(w.ocp.ub, p), const(0))
    if g != "states_dot":
        p = s * w.V + w.off[g] + made["k"]
        lo, hi = made["lo"], made["hi"]
        if with_bc and bool(eq(s, made["s"])):
            lo = hi = made["v"]
        CTX.require_eq("the caller's bound: lower", E(w.ocp.lb, p), lo)
        CTX.require_eq("the caller's bound: upper", E(w.ocp.ub, p), hi)
        q = idx("q_" + g, w.n[g])
        if not bool(eq(q, made["k"])):
            p = s * w.V + w.off[g] + q
            CTX.require("no other lower bound", bool(E(w.ocp.lb, p) == -np.inf))
            CTX.require("no other upper bound", bool(E(w.ocp.ub, p) == np.inf))
    if not fixed:
        CTX.require("mesh scale: no lower bound", bool(E(w.ocp.lb, w.num - 1) == -np.inf))
        CTX.require("mesh scale: no upper bound", bool(E(w.ocp.ub, w.num - 1) == np.inf))


@canary("continuity with the time step left out must be refuted")
def no_step():
    w = build(condensed(free=False))
    c = building(w, w.con.constraints, vec("x", w.num))
    i, l, j = idx("i", w.N), idx("l", w.M - 1), idx("j", w.ns)
    CTX.require_eq("row", E(c, (i * (w.M - 1) + l) * w.ns + j), ssum(
        w.M, lambda k: read("A", [l, k]) * X(w, "states", i, k, j)) - ssum(
        w.M - 1, lambda k: read("B", [l, k + 1]) * read("F", [i * (w.M - 1) + k + 1, j])))


@canary("multipliers of shared stages taken from one side only must be refuted")
def one_side():
    w = build(condensed(free=False))
    building(w, w.con.hessian, vec("x", w.num), vec("lam", w.nc + w.S * w.r))
    m = [c for c in w.A.calls if c[0] == "h"][0][2]
    i, j = idx("i", w.N), idx("j", w.ns)
    k = w.M - 1
    CTX.require_eq("multiplier", E(m, (i * (w.M - 1) + k) * w.m + j), -w.length(i) * w.mesh_scale() * ssum(
        w.M - 1, lambda l: read("B", [l, k]) * read("lam", [(i * (w.M - 1) + l) * w.ns + j])))

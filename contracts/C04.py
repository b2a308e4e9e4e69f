"""C04: the composite problem is the stack of its constraints and the sum of its objectives."""
from contracts.common import *
import lumos.optimal_control.nlp as nlp

assume_note("Component constraints/objectives are taken by their contract (C03): opaque values at opaque in-range "
            "places; names of components are pairwise distinct (dict keys).")


class Con:
    """Abstract constraint component k of the family `p`: m(k) constraints, nj(k)/nh(k) stored entries."""

    def __init__(self, p, k, n, at=None):
        self.p, self.k, self.n = p, lift(k), n
        self.num_in = n
        self.at = at
        self.scales = None
        i = [self.k]
        self.num_con = read(p + "m", i, "int")
        self.nj, self.nh = read(p + "nj", i, "int"), read(p + "nh", i, "int")

    def _at(self, x, what):
        if self.at is not None:
            j = CTX.index("j", self.n)
            CTX.require_eq(f"point passed to the component {what}", elem(x, j), read(self.at, [j]))

    def _v(self, nm, n, kind="real"):
        k, nm = self.k, self.p + nm
        return T((Atm(n),), lambda c: read(nm, [k, lift(c)], kind), kind)

    def set_input_scales(self, s):
        self.scales = s

    def constraints(self, x):
        self._at(x, "constraints")
        return self._v("F", self.num_con)

    def jacobian(self, x):
        self._at(x, "Jacobian")
        return self._v("J", self.nj)

    def jacobianstructure(self):
        return self._v("jr", self.nj, "int"), self._v("jc", self.nj, "int")

    def hessianstructure(self):
        return self._v("hr", self.nh, "int"), self._v("hc", self.nh, "int")

    def hessian(self, x, lam):
        """Linear in the multipliers: entry t is sum over r of lam[r] * H[r, t]."""
        self._at(x, "Hessian")
        CTX.require_eq("number of multipliers passed to the component", lam.spaces[0].size(), self.num_con)
        k, nm, m = self.k, self.p + "H", self.num_con
        v = fresh("b")

        def el(c):
            w = fresh("b")
            with CTX.local_vars([(w, m)]):
                b = lift(elem(lam, w)) * read(nm, [k, w, lift(c)])
            return SUM([(w, m)], b)
        return T((Atm(self.nh),), el)


class Obj(Con):
    def objective(self, x):
        self._at(x, "objective")
        return read(self.p + "f", [self.k])

    def gradient(self, x):
        self._at(x, "gradient")
        return self._v("g", self.n)

    def hessian(self, x):
        self._at(x, "Hessian")
        return self._v("Ho", self.nh)


def family(p, n):
    for a in ("m", "nj", "nh"):
        CTX.array_bounds(p + a, lambda *i: (const(0), None))
    for a in ("jc", "hr", "hc"):
        CTX.array_bounds(p + a, lambda *i: (const(0), n - 1))
    CTX.array_bounds(p + "jr", lambda k, *i: (const(0), read(p + "m", [k], "int") - 1))


def setup(at="x"):
    n = CTX.size("n", 1)
    K, L = CTX.size("K", 1), CTX.size("L", 1)
    family("c.", n)
    family("o.", n)
    p = nlp.CompositeProblem(n)
    p._constraints = SymMap(names("con", K), SymSeq([("map", K, lambda k: Con("c.", k, n, at))]))
    p._objectives = SymMap(names("obj", L), SymSeq([("map", L, lambda k: Obj("o.", k, n, at))]))
    return p, n, K, L


def off(p, a, k):
    v = fresh("b")
    return SUM([(v, lift(k))], read(p + a, [v], "int"))


@goal("number of constraints is the total; constraints are stacked in order")
def stacked():
    p, n, K, L = setup()
    M = off("c.", "m", K)
    CTX.require_eq("number of constraints", p.num_con, M)
    y = p.constraints(vec("x", n))
    shape_is("values", y, M)
    k = idx("k", K)
    i = idx("i", read("c.m", [k], "int"))
    CTX.require_eq("constraint i of component k", elem(y, off("c.", "m", k) + i), read("c.F", [k, i]))


@goal("Jacobian entries of component k are stored in order with rows shifted by the constraints before it")
def jacobian():
    p, n, K, L = setup()
    v = p.jacobian(vec("x", n))
    rows, cols = p.jacobianstructure()
    NJ = off("c.", "nj", K)
    shape_is("values", v, NJ)
    shape_is("rows", rows, NJ)
    shape_is("columns", cols, NJ)
    k = idx("k", K)
    t = idx("t", read("c.nj", [k], "int"))
    q = off("c.", "nj", k) + t
    CTX.require_eq("value", elem(v, q), read("c.J", [k, t]))
    CTX.require_eq("row", elem(rows, q), off("c.", "m", k) + read("c.jr", [k, t], "int"))
    CTX.require_eq("column", elem(cols, q), read("c.jc", [k, t], "int"))


@goal("objective and gradient are the sums over the objectives")
def sums():
    p, n, K, L = setup()
    x = vec("x", n)
    v = fresh("b")
    CTX.require_eq("objective", p._compute_objective(x), SUM([(v, L)], read("o.f", [v])))
    CTX.require_eq("objective callback", p.objective(x), SUM([(v, L)], read("o.f", [v])))
    g = p.gradient(x)
    shape_is("gradient", g, n)
    j = idx("j", n)
    CTX.require_eq("gradient", elem(g, j), SUM([(v, L)], read("o.g", [v, j])))


@goal("splitting a constraint vector gives each component its own slice")
def split():
    p, n, K, L = setup()
    M = off("c.", "m", K)
    d = p.split_constraints(vec("lam", M))
    k = idx("k", K)
    part = d[name_of("con", k)]
    shape_is("slice", part, read("c.m", [k], "int"))
    i = idx("i", read("c.m", [k], "int"))
    CTX.require_eq("entry", elem(part, i), read("lam", [off("c.", "m", k) + i]))


def weak_hessian(p, n, K, L, order):
    M = off("c.", "m", K)
    lam, x = vec("lam", M), vec("x", n)
    if order == 0:
        rows, cols = p.hessianstructure()
        v = p.hessian(x, lam, sym("of"))
    elif order == 1:
        v = p.hessian(x, lam, sym("of"))
        rows, cols = p.hessianstructure()
    else:
        p.hessianstructure()
        v = p.hessian(x, lam, sym("of"))
        rows, cols = p.hessianstructure()
    CTX.require_eq("values and rows have one entry each", v.spaces[0].size(), rows.spaces[0].size())
    CTX.require_eq("values and columns have one entry each", v.spaces[0].size(), cols.spaces[0].size())
    return v, rows, cols


@goal("Hessian is the upper triangle of sum_k lam_k-weighted Hessians + obj_factor * objective Hessians")
def hessian():
    p, n, K, L = setup()
    v, rows, cols = weak_hessian(p, n, K, L, CTX.choose(3))
    CTX.require("same layout", v.spaces[0].same(rows.spaces[0]) and v.spaces[0].same(cols.spaces[0]))
    sp = v.spaces[0]
    tot = const(0)
    for vs, c, b in sp.binders():
        tot = tot + split_total(vs, lambda: lift(v.el(c)) * read("w", [lift(rows.el(c)), lift(cols.el(c))]) * iverson(b))
    k, t, r = fresh("b"), fresh("b"), fresh("b")
    hr, hc = read("c.hr", [k, t], "int"), read("c.hc", [k, t], "int")
    want = SUM([(k, K), (t, read("c.nh", [k], "int")), (r, read("c.m", [k], "int"))],
               read("lam", [off("c.", "m", k) + r]) * read("c.H", [k, r, t]) * read("w", [hr, hc]) * iverson(ge0(hc - hr)))
    hr, hc = read("o.hr", [k, t], "int"), read("o.hc", [k, t], "int")
    want = want + SUM([(k, L), (t, read("o.nh", [k], "int"))],
                      sym("of") * read("o.Ho", [k, t]) * read("w", [hr, hc]) * iverson(ge0(hc - hr)))
    CTX.require_eq("weighted sum against any weights w[row, column]", tot, want)


def split_total(vs, f):
    from lumver.tensor import split_sum
    return split_sum(vs, f)


@goal("adding: stored last, scaled like the problem, refused on a duplicate name or another number of inputs")
def adding():
    n = CTX.size("n", 1)
    family("c.", n)
    p = nlp.CompositeProblem(n)
    p._dec_var_scales = vec("s", n)
    a, b = Con("c.", 0, n), Con("c.", 1, n)
    oa, ob = Obj("o.", 0, n), Obj("o.", 1, n)
    p.add_constraints("a", a)
    p.add_constraints("b", b)
    p.add_objective("a", oa)
    p.add_objective("z", ob)
    j = idx("j", n)
    for c in (a, b, oa, ob):
        CTX.require("scales were set", c.scales is not None)
        CTX.require_eq("scale", elem(c.scales, j), read("s", [j]))
    expect_raises("duplicate constraint name", ValueError, p.add_constraints, "a", Con("c.", 2, n))
    expect_raises("duplicate objective name", NameError, p.add_objective, "z", Obj("o.", 2, n))
    bad = Con("c.", 2, n)
    bad.num_in = n + 1 + CTX.index("d", CTX.size("D", 1))
    expect_raises("number of inputs", ValueError, p.add_constraints, "c", bad)
    CTX.require_eq("number of constraints", p.num_con, a.num_con + b.num_con)


@goal("any history of adding and deleting leaves exactly the present components", timeout=600)
def history():
    """Step of the induction over histories: from any cached state, one mutation, then the callbacks
    agree with the components now present (caches rebuilt)."""
    n = CTX.size("n", 1)
    family("c.", n)
    family("o.", n)
    p = nlp.CompositeProblem(n)
    present, pobj = [], []

    def add(k):
        p.add_constraints(f"c{k}", Con("c.", k, n))
        present.append(k)

    def addo(k):
        p.add_objective(f"o{k}", Obj("o.", k, n))
        pobj.append(k)
    add(0)
    addo(0)
    if CTX.choose(2):
        add(1)
        addo(1)
    x = vec("x", n)

    def lam():
        tot = const(0)
        for k in present:
            tot = tot + read("c.m", [k], "int")
        return vec("lam", tot)
    # warm every cache in one of the ways a user can
    warm = CTX.choose(3)
    if warm == 1:
        p.hessianstructure()
    elif warm == 2:
        p.hessian(x, lam(), sym("of"))
    step = CTX.choose(4)
    if step == 0:
        add(2)
    elif step == 1:
        addo(2)
    elif step == 2:
        if len(present) < 2:
            return
        p.delete_constraints(f"c{present.pop(0)}")
    else:
        if len(pobj) < 2:
            return
        p.delete_objective(f"o{pobj.pop(0)}")
    v = p.hessian(x, lam(), sym("of"))
    rows, cols = p.hessianstructure()
    sp = v.spaces[0]
    CTX.require("same layout", sp.same(rows.spaces[0]) and sp.same(cols.spaces[0]))
    tot = const(0)
    for vs, c, b in sp.binders():
        tot = tot + split_total(vs, lambda: lift(v.el(c)) * read("w", [lift(rows.el(c)), lift(cols.el(c))]) * iverson(b))
    want, o = const(0), const(0)
    t, r = fresh("b"), fresh("b")
    for k in present:
        hr, hc = read("c.hr", [k, t], "int"), read("c.hc", [k, t], "int")
        want = want + SUM([(t, read("c.nh", [k], "int")), (r, read("c.m", [k], "int"))],
                          read("lam", [o + r]) * read("c.H", [k, r, t]) * read("w", [hr, hc]) * iverson(ge0(hc - hr)))
        o = o + read("c.m", [k], "int")
    for k in pobj:
        hr, hc = read("o.hr", [k, t], "int"), read("o.hc", [k, t], "int")
        want = want + SUM([(t, read("o.nh", [k], "int"))],
                          sym("of") * read("o.Ho", [k, t]) * read("w", [hr, hc]) * iverson(ge0(hc - hr)))
    CTX.require_eq("weighted sum against any weights w[row, column]", tot, want)
    CTX.require_eq("number of constraints", p.num_con, o)


@canary("a Jacobian without the row shift must be refuted")
def wrong():
    p, n, K, L = setup()
    rows, cols = p.jacobianstructure()
    k = idx("k", K)
    t = idx("t", read("c.nj", [k], "int"))
    CTX.require_eq("row", elem(rows, off("c.", "nj", k) + t), read("c.jr", [k, t], "int"))

"""C08: bounds, boundary conditions and scales reach exactly the right variables."""
from contracts.ocp import *
from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig, ScaleConfig

INF = "inf"


def var(w, tag, groups=("states", "inputs", "states_dot", "con_outputs")):
    """A generic stage variable: (group, position, name)."""
    g = groups[CTX.choose(len(groups))]
    if not CTX.prove(ge0(w.n[g] - 1)):
        CTX.assume(ge0(w.n[g] - 1))
    k = CTX.index(tag, w.n[g])
    return g, k, w.model.names._asdict()[g].get(k)


def pos(w, g, k, s):
    return s * w.V + w.off[g] + k


def problem(kinds=(2,)):
    return world(CTX.choose(2) == 1, kinds[CTX.choose(len(kinds))], orders=False)


def any_bounds(w):
    """The bounds after any history."""
    w.ocp.lb, w.ocp.ub = vec("lb0", w.num), vec("ub0", w.num)


def probe(w, q=None):
    """A generic decision variable: a stage variable or the mesh scale: (position, group, k, stage)."""
    if not w.fixed and CTX.choose(2):
        return w.num - 1, "global", None, None
    g, k, _ = var(w, "pk")
    s = CTX.index("ps", w.S)
    return pos(w, g, k, s), g, k, s


def hits(w, p, g, k, s=None):
    """Does the probe address variable k of group g (at stage s, or at any)?"""
    _, pg, pk, ps = p
    if pg != g or pg == "global":
        return pg == g
    c = eq(pk, k)
    if s is not None:
        c = band(c, eq(ps, s))
    return bool(c)


def scalar_bounds(tag):
    lo, hi = sym(tag + "_lo"), sym(tag + "_hi")
    CTX.assume(ge0(hi - lo))
    return lo, hi


def array_bounds(w, tag):
    """Per-stage bounds, lower not above upper at any stage."""
    from lumver import symnp
    lo, d = vec(tag + "_lo", w.S), vec(tag + "_d", w.S)
    CTX.array_bounds(tag + "_d", lambda *i: (const(0), None))
    return lo, lo + d


def at(b, s):
    return b if isinstance(b, P) else elem(b, s)


ALL = ("states", "inputs", "states_dot", "con_outputs")


def bound_config(w, tag, array, groups=ALL):
    g, k, n = var(w, tag, groups)
    vals = array_bounds(w, tag) if array else scalar_bounds(tag)
    return (g, k, None, vals), BoundConfig(g, n, vals)


def stage_of(w, tag):
    """A stage, counted from the front or the back: (as given, from the front)."""
    s = CTX.index(tag, w.S)
    return (s, s) if CTX.choose(2) == 0 else (s - w.S, s)


def bc_config(w, tag, groups=("states", "inputs"), front=False):
    g, k, n = var(w, tag, groups)
    given, s = stage_of(w, tag + "s") if not front else [CTX.index(tag + "s", w.S)] * 2
    v = sym(tag + "_v") if front or CTX.choose(2) == 0 else scalar_bounds(tag)
    vals = v if isinstance(v, tuple) else (v, v)
    return (g, k, s, vals), BoundaryConditionConfig(given, g, n, v)


def check(w, p, writes, old=None):
    """writes: in order of precedence (last wins)."""
    lb = ub = None
    for g, k, s, (lo, hi) in reversed(writes):
        if hits(w, p, g, k, s):
            lb, ub = at(lo, p[3]), at(hi, p[3])
            break
    if lb is None:
        lb, ub = (read("lb0", [p[0]]), read("ub0", [p[0]])) if old is None else old
    shape_is("lower bounds", w.ocp.lb, w.num)
    CTX.require_eq("lower bound", lift(elem(w.ocp.lb, p[0])), lb)
    CTX.require_eq("upper bound", lift(elem(w.ocp.ub, p[0])), ub)


@goal("one bound update changes exactly its variable, at every stage, after any history", timeout=600)
def one_bound():
    w = problem()
    any_bounds(w)
    wr, b = bound_config(w, "b", CTX.choose(2) == 1)
    w.ocp.update_bounds((b,))
    check(w, probe(w), [wr])


@goal("two bound updates, in one or two calls: the later one on a variable wins", timeout=600)
def two_bounds():
    w = world(False, 2, orders=False)
    any_bounds(w)
    a, x = bound_config(w, "a", CTX.choose(2) == 1)
    b, y = bound_config(w, "b", False)
    if CTX.choose(2):
        w.ocp.update_bounds((x, y))
    else:
        w.ocp.update_bounds((x,))
        w.ocp.update_bounds((y,))
    check(w, probe(w), [a, b])


@goal("a boundary condition changes exactly its variable at its stage, after any history", timeout=600)
def one_bc():
    w = problem()
    any_bounds(w)
    wr, b = bc_config(w, "c")
    w.ocp.update_boundary_conditions((b,))
    check(w, probe(w), [wr])


@goal("boundary conditions hold through later bound updates; the later of two conditions wins", timeout=600)
def bc_then_bounds():
    w = world(True, 2, orders=False)
    any_bounds(w)
    c, x = bc_config(w, "c", ("states",))
    d, y = bc_config(w, "d", ("states",), front=True)
    b, z = bound_config(w, "b", False, ("states",))
    w.ocp.update_boundary_conditions((x,))
    if CTX.choose(2):
        w.ocp.update_boundary_conditions((y,))
        w.ocp.update_bounds((z,))
    else:
        w.ocp.update_bounds((z,))
        w.ocp.update_boundary_conditions((y,))
    check(w, probe(w), [b, c, d])


@goal("bounds of the construction: infinite unless configured; conditions before bounds", timeout=600)
def construction():
    fixed = CTX.choose(2) == 1
    m = CTX.choose(3)
    made = {}

    def cfg(w):
        wr = []
        out = {}
        if m >= 1:
            b, x = bound_config(w, "b", False)
            wr.append(b)
            out["bounds"] = (x,)
        if m >= 2:
            c, y = bc_config(w, "c")
            wr.append(c)
            out["boundary_conditions"] = (y,)
        made["w"] = wr
        return out
    w = world(fixed, 2, orders=False, late=cfg)
    import numpy as np
    check(w, probe(w), made["w"], old=(-np.inf, np.inf))
    shape_is("constraint lower bounds", w.ocp.cl, w.ocp.num_con)
    shape_is("constraint upper bounds", w.ocp.cu, w.ocp.num_con)
    r = idx("r", w.ocp.num_con)
    CTX.require_eq("equality: lower", lift(elem(w.ocp.cl, r)), const(0))
    CTX.require_eq("equality: upper", lift(elem(w.ocp.cu, r)), const(0))


@goal("bounds of the mesh scale", timeout=300)
def global_bound():
    w = world(False, 2, orders=False)
    any_bounds(w)
    v = scalar_bounds("b")
    w.ocp.update_bounds((BoundConfig("global", "mesh_scale", v),))
    check(w, probe(w), [("global", None, None, v)])


@goal("contradictory bounds are refused", timeout=300)
def contradictory():
    w = world(True, 2, orders=False)
    g, k, n = var(w, "v")
    lo, hi = sym("lo"), sym("hi")
    CTX.assume(ge0(lo - hi))
    CTX.assume(bnot(eq(lo, hi)))
    if CTX.choose(2):
        must_raise("bound refused", AssertionError, BoundConfig, g, n, (lo, hi))
        must_raise("bound refused", AssertionError, w.ocp._set_var_bounds, g, n, None, (lo, hi))
    else:
        given, s = stage_of(w, "s")
        must_raise("condition refused", AssertionError, w.ocp.update_boundary_conditions,
                   (BoundaryConditionConfig(given, g, n, (lo, hi)),))


@goal("per-stage bounds contradictory at any stage are refused", timeout=300)
def contradictory_stage():
    w = world(True, 2, orders=False)
    g, k, n = var(w, "v")
    lo, hi = vec("lo", w.S), vec("hi", w.S)
    s = CTX.index("s", w.S)
    d = read("lo", [s]) - read("hi", [s])
    CTX.assume(ge0(d))
    CTX.assume(bnot(eq(d, const(0))))
    f = [lambda: BoundConfig(g, n, (lo, hi)), lambda: w.ocp._set_var_bounds(g, n, None, (lo, hi))][CTX.choose(2)]
    must_raise("refused", AssertionError, f, at=(s,))


@goal("per-stage bounds of the wrong size are refused", timeout=300)
def wrong_size():
    w = world(True, 2, orders=False)
    g, k, n = var(w, "v")
    d = CTX.size("d", 1)
    L = w.S + d
    if CTX.choose(2):
        CTX.assume(ge0(w.S - d))
        L = w.S - d
    lo, e = vec("lo", L), vec("d_", L)
    CTX.array_bounds("d_", lambda *i: (const(0), None))
    b = BoundConfig(g, n, (lo, lo + e))
    must_raise("refused", AssertionError, w.ocp.update_bounds, (b,))


@goal("a stage outside the problem is refused", timeout=300)
def bad_stage():
    w = world(True, 2, orders=False)
    g, k, n = var(w, "v", ("states", "inputs"))
    d = CTX.size("d", 0)
    s = [w.S + d, -w.S - 1 - d][CTX.choose(2)]
    must_raise("refused", ValueError, w.ocp.update_boundary_conditions, (BoundaryConditionConfig(s, g, n, sym("v")),))


def scaled(w, tag, groups=ALL, glob=True):
    if glob and not w.fixed and CTX.choose(2):
        g, k, n = "global", None, "mesh_scale"
    else:
        g, k, n = var(w, tag, groups)
    v = sym(tag + "_v")
    CTX.assume(ge0(v))
    CTX.assume(bnot(eq(v, const(0))))
    return (g, k, v), ScaleConfig(g, n, v)


def scale_spec(w, p, writes):
    for g, k, v in reversed(writes):
        if hits(w, p, g, k):
            return v
    return const(1)


@goal("variable scales: the listed value at all stages, one elsewhere, the same in every component", timeout=600)
def var_scales():
    w = problem()
    wr, cf = [], []
    m = CTX.choose(3)
    for t in "ab"[:m]:
        a, c = scaled(w, t) if t == "a" and m == 1 else scaled(w, t, ("states", "con_outputs"), t == "a")
        wr.append(a)
        cf.append(c)
    if m < 2 and CTX.choose(2):            # scales of an earlier call do not persist
        w.ocp.set_scales((scaled(w, "old", ("states",))[1],))
    w.ocp.set_scales(tuple(cf))
    p = probe(w)
    e = scale_spec(w, p, wr)
    CTX.require_eq("scale", lift(elem(w.ocp._dec_var_scales, p[0])), e)
    for n, c in list(w.ocp._objectives.items()) + list(w.ocp._constraints.items()):
        shape_is("scales of " + n, c._input_scales, w.num)
        CTX.require_eq("scale in " + n, lift(elem(c._input_scales, p[0])), e)


@goal("constraint scales: continuity and state rows by the state scale, output rows by theirs, residuals by one",
      timeout=600)
def con_scales():
    w = problem((2, "M"))
    a, c = scaled(w, "a", ("states", "con_outputs"))
    b, d = scaled(w, "b", ("states", "con_outputs"), False)
    w.ocp.set_scales((c, d))

    def spec(g, k):
        return scale_spec(w, (None, g, k, None), [a, b])
    which = CTX.choose(4)
    if which == 0:
        con = w.ocp._constraints["continuity"]
        i, l, j = idx("i", w.N), idx("l", w.M - 1), idx("j", w.n["states"])
        shape_is("continuity scales", con._con_scales, w.N * (w.M - 1) * w.n["states"])
        CTX.require_eq("continuity", lift(elem(con._con_scales, (i * (w.M - 1) + l) * w.n["states"] + j)),
                       spec("states", j))
        return
    con = w.ocp._constraints["model_algebra"]
    shape_is("algebra scales", con._con_scales, w.S * w.m)
    g, o = [("states", const(0)), ("con_outputs", w.n["states"]),
            ("residuals", w.n["states"] + w.n["con_outputs"])][which - 1]
    s, j = idx("s", w.S), idx("j", w.n[g])
    CTX.require_eq("row of " + g, lift(elem(con._con_scales, s * w.m + o + j)),
                   const(1) if g == "residuals" else spec(g, j))


@goal("scales of the construction take effect", timeout=600)
def constructed_scales():
    wr = []

    def late(w):
        a, c = scaled(w, "a", ("states", "con_outputs"))
        wr.append(a)
        return dict(scales=(c,))
    w = world(CTX.choose(2) == 1, 2, orders=False, late=late)
    p = probe(w)
    e = scale_spec(w, p, wr)
    CTX.require_eq("scale", lift(elem(w.ocp._dec_var_scales, p[0])), e)
    for n, c in list(w.ocp._objectives.items()) + list(w.ocp._constraints.items()):
        shape_is("scales of " + n, c._input_scales, w.num)
        CTX.require_eq("scale in " + n, lift(elem(c._input_scales, p[0])), e)
    con = w.ocp._constraints["continuity"]
    i, l, j = idx("i", w.N), idx("l", w.M - 1), idx("j", w.n["states"])
    CTX.require_eq("continuity", lift(elem(con._con_scales, (i * (w.M - 1) + l) * w.n["states"] + j)),
                   scale_spec(w, (None, "states", j, None), wr))


@canary("a bound update that also hits the next variable must be refuted")
def wrong():
    w = world(True, 2, orders=False)
    any_bounds(w)
    wr, b = bound_config(w, "b", False)
    w.ocp.update_bounds((b,))
    p = probe(w)
    CTX.require_eq("lower bound", lift(elem(w.ocp.lb, p[0])), read("lb0", [p[0]]))

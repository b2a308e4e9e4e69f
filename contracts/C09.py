"""C09: cyclic constraints."""
from contracts.ocp import *


def full(g, k):
    return g + "." + name_of(g, k)


@goal("without exclusions: row r is first-stage minus last-stage value of the r-th state or input", timeout=600)
def plain():
    w = world(CTX.choose(2) == 1, [2, "M"][CTX.choose(2)], cyclic=True)
    con = w.ocp._constraints["cyclic"]
    ns, ni = w.n["states"], w.n["inputs"]
    CTX.require_eq("number of constraints", con.num_con, ns + ni)
    y = con.constraints(vec("x", w.num))
    shape_is("values", y, ns + ni)
    g, n, o = [("states", ns, const(0)), ("inputs", ni, ns)][CTX.choose(2)]
    j = idx("j", n)
    first = w.off[g] + j
    last = (w.S - 1) * w.V + w.off[g] + j
    CTX.require_eq("value", elem(y, o + j), read("x", [first]) - read("x", [last]))


@goal("Jacobian: exact derivative in every direction; empty Hessian", timeout=600)
def derivative():
    w = world(CTX.choose(2) == 1, [2, "M"][CTX.choose(2)], cyclic=True)
    con = w.ocp._constraints["cyclic"]
    ns, ni = w.n["states"], w.n["inputs"]
    r, c = con.jacobianstructure()
    U = lambda r: read("U", [r])
    W = lambda c: read("W", [c])
    got = weak("Jacobian", con.jacobian(vec("x", w.num)), r, c, U, W)

    def rows(n, o, g):
        return ssum(n, lambda j: U(o + j) * (W(w.off[g] + j) - W((w.S - 1) * w.V + w.off[g] + j)))
    CTX.require_eq("derivative", got, rows(ns, const(0), "states") + rows(ni, ns, "inputs"))
    hr, hc = con.hessianstructure()
    v = con.hessian(vec("x", w.num), vec("L", ns + ni))
    CTX.require_eq("no Hessian entries", weak("Hessian", v, hr, hc, U, W), const(0))


@goal("excluded variables lose their row, all others keep theirs in order", timeout=600)
def excluded():
    m = CTX.choose(3)
    g = ["states", "inputs"][CTX.choose(2)]
    o = [x for x in ("states", "inputs") if x != g][0]
    n = {x: CTX.size("n_" + x, 0 if x == "inputs" else 1) for x in ("states", "inputs")}
    if m == 2:
        CTX.assume(ge0(n[g] - 2))
    else:
        CTX.assume(ge0(n[g] - 1))
        CTX.assume(ge0(n["states"] + n["inputs"] - 2))
    a = CTX.index("a", n[g])
    ex = [full(g, a)]
    if m == 1:                         # one of each group
        CTX.assume(ge0(n[o] - 1))
        CTX.assume(ge0(n["states"] + n["inputs"] - 3))
        b = CTX.index("b", n[o])
        ex.append(full(o, b))
    elif m == 2:                       # two of one group, in any order
        CTX.assume(ge0(n["states"] + n["inputs"] - 3))
        b = CTX.index("b", n[g])
        CTX.assume(bnot(eq(a, b)))
        ex.append(full(g, b))
    w = world(m == 0 and CTX.choose(2) == 1, 2, cyclic=True, orders=False, non_cyclic_vars=ex)
    con = w.ocp._constraints["cyclic"]
    CTX.require_eq("number of constraints", con.num_con, n["states"] + n["inputs"] - len(ex))
    y = con.constraints(vec("x", w.num))
    # the row of the kept variable j of group q: its position minus the excluded ones before it
    q = ["states", "inputs"][CTX.choose(2)]
    j = idx("j", n[q])
    gone = [(g, a)] + ([(o, b)] if m == 1 else [(g, b)] if m == 2 else [])
    row = j + (n["states"] if q == "inputs" else 0)
    for gg, e in gone:
        if gg == q:
            if bool(eq(e, j)):
                return
            row = row - (1 if bool(ge0(j - e)) else 0)
        elif q == "inputs":
            row = row - 1
    first = w.off[q] + j
    CTX.require_eq("value", elem(y, row), read("x", [first]) - read("x", [(w.S - 1) * w.V + first]))


@goal("excluding an unknown variable raises a ValueError")
def unknown():
    bad = ["states.nope", "outputs.nope", "nope", "inputs.nope"][CTX.choose(4)]
    expect_raises("refused", ValueError, world, CTX.choose(2) == 1, 2, cyclic=True, orders=False,
                  non_cyclic_vars=[bad])


@canary("the row of the first state is last minus first (must be refuted)")
def wrong():
    w = world(True, 2, cyclic=True, orders=False)
    y = w.ocp._constraints["cyclic"].constraints(vec("x", w.num))
    first = w.off["states"]
    CTX.require_eq("value", elem(y, 0), read("x", [(w.S - 1) * w.V + first]) - read("x", [first]))

"""Specification helpers shared by the contract files."""
import collections
import itertools

from lumver.terms import (P, B, band, bor, bnot, const, eq, ge0, lift, sym, read, ufn, SUM, iverson, fresh, vid,
                          Unsupported, TRUE, pred, subst, bsubst)
from lumver.ctx import CTX
from lumver.tensor import T, Atm, Cat, Prod, DSum, Filt, vec, arr, any_coord, tsum
from lumver.seq import names, SymSeq, SymStr, SList, as_seq, SymMap
from lumver.harness import goal, canary, assume_note, expect_raises

SSIO = collections.namedtuple("StateSpaceIO", (
    "states", "states_dot", "inputs", "outputs", "con_outputs", "residuals"))


def name_of(lst, k):
    """The k-th name of the list `lst`."""
    from lumver.seq import NameAtom
    return SymStr([NameAtom(lst, k)])


def model_names(minimum=None, equal_states=True):
    """Name lists of symbolic length; states_dot has one entry per state."""
    lo = dict(states=1, inputs=0, outputs=0, con_outputs=0, residuals=0)
    lo.update(minimum or {})
    n = {g: CTX.size(f"n_{g}", lo[g]) for g in lo}
    n["states_dot"] = n["states"]
    return SSIO(**{g: names(g, n[g]) for g in SSIO._fields}), n


def shape_is(name, t, *dims):
    ok = isinstance(t, T) and len(t.spaces) == len(dims)
    if not ok:
        got = t.spaces if isinstance(t, T) else getattr(t, "shape", type(t))
        CTX.fail(name + " (rank)", f"expected an array of rank {len(dims)}, got {got}")
        return False
    r = True
    for k, (s, d) in enumerate(zip(t.spaces, dims)):
        r = CTX.require_eq(f"{name} (axis {k})", s.size(), d) and r
    return r


def idx(name, n):
    """Fresh universally quantified index below n (n > 0 is assumed, else nothing to show)."""
    n = lift(n)
    if n.is_const():
        return const(CTX.choose(int(n.const())))
    if not CTX.prove(ge0(n - 1)):
        CTX.assume(ge0(n - 1))
    return CTX.index(name, n)


def elem(t, *lins):
    if isinstance(t, T):
        return t.at(*lins)
    import numpy as np
    if isinstance(t, np.ndarray):
        if all(isinstance(i, int) or i.is_const() for i in lins):
            return lift(t[tuple(int(i) if isinstance(i, int) else int(i.const()) for i in lins)])
        # a concrete table read at a symbolic position
        from lumver.symnp import asT
        return asT(t).at(*lins)
    raise Unsupported(f"element of {type(t)}")


GROUPS = [("states", "inputs"), ("states", "inputs", "states_dot", "con_outputs"),
          ("states_dot", "con_outputs", "states"), ("inputs",)]
GLOBALS = [(), ("mesh_scale",), ("g0", "g1"), ("b", "a", "g10", "c")]
# every choice and order of groups
ALL_GROUPS = [p for k in range(1, 5) for p in itertools.permutations(GROUPS[1], k)]


def layout(groups=None, among=GROUPS):
    """The real decision-variable operator over symbolic sizes."""
    groups = among[CTX.choose(len(among))] if groups is None else groups
    glob = GLOBALS[CTX.choose(len(GLOBALS))]
    io, n = model_names(None if "states" in groups or "states_dot" in groups else {groups[0]: 1})
    N = CTX.size("N", 1)
    M = CTX.size("M", 2)
    from lumos.optimal_control.utils import DecVarOperator
    op = DecVarOperator(io, N, M, groups, glob)
    off, V = {}, const(0)
    for g in groups:
        off[g] = V
        V = V + n[g]
    S = N * (M - 1) + 1
    return op, groups, glob, n, N, M, S, V, off


def weak(name, vals, rows, cols, u, w):
    """Sum over the stored entries of value * u(row) * w(column); values/rows/columns must have one size."""
    from lumver import symnp
    from lumver.tensor import conv, split_sum
    import numpy as np
    if any(isinstance(t, np.ndarray) and t.size == 0 for t in (vals, rows, cols)):
        for t in (vals, rows, cols):
            CTX.require_eq(name + ": sizes", symnp.size(t), const(0))
        return const(0)
    v, r, q = (symnp.ravel(t) for t in (vals, rows, cols))
    sp = v.spaces[0]
    CTX.require_eq(name + ": one row index per value", r.spaces[0].size(), sp.size())
    CTX.require_eq(name + ": one column index per value", q.spaces[0].size(), sp.size())
    tot = const(0)
    for vs, c, b in sp.binders():
        f = lambda: (lift(v.el(c)) * u(lift(r.el(conv(c, sp, r.spaces[0])))) * w(lift(q.el(conv(c, sp, q.spaces[0]))))
                     * iverson(b))
        tot = tot + split_sum(vs, f)
    return tot


def ssum(*dims_f):
    """ssum(n1, n2, ..., f): sum over i1 < n1, i2 < n2, ... of f(i1, i2, ...)."""
    from lumver.tensor import split_sum
    *dims, f = dims_f
    dims = [lift(d) for d in dims]
    vs = [None if d.is_const() else (fresh("b"), d) for d in dims]

    def total(k, args):
        if k == len(dims):
            return f(*args)
        if vs[k] is not None:
            return total(k + 1, args + [vs[k][0]])
        r = const(0)
        for q in range(int(dims[k].const())):
            r = r + total(k + 1, args + [const(q)])
        return r
    return split_sum([v for v in vs if v is not None], lambda: total(0, []))


def quantified():
    """The universally quantified conditions among the assumptions of this path: (fact, holds?, vars, cond, body)."""
    for f in list(CTX.facts):
        if f.key in CTX.quants:
            yield (True,) + CTX.quants[f.key]
        elif f.kind == "not" and f.args[0].key in CTX.quants:
            yield (False,) + CTX.quants[f.args[0].key]


def instantiate(*at):
    """Use every universally quantified assumption over one index at the given positions."""
    for holds, vs, cond, val in list(quantified()):
        if holds and len(vs) == 1:
            v, n = vs[0]
            for e in at:
                e = lift(e)
                env = {vid(v): e}
                CTX.assume(bor(bnot(ge0(e)), bnot(ge0(n - 1 - e)), bnot(bsubst(cond, env)), bsubst(val, env)))


def witness():
    """Name a counterexample of every refuted universally quantified condition of this path."""
    for holds, vs, cond, val in list(quantified()):
        if not holds:
            env = {}
            for v, n in vs:
                env[vid(v)] = CTX.index("wit", subst(n, env))
            CTX.assume(bsubst(cond, env))
            CTX.assume(bnot(bsubst(val, env)))


def must_raise(name, exc, f, *args, at=(), **kw):
    """f must raise: a path on which it returns has to contradict the assumptions."""
    from lumver.ctx import Infeasible
    try:
        f(*args, **kw)
    except exc:
        CTX.require(name, True)
        return
    try:
        instantiate(*at)
        if CTX.infeasible():
            raise Infeasible()
    except Infeasible:
        return CTX.require(name, True)
    CTX.fail(name, "returns without an exception")


def must_accept(name, exc, f, *args, **kw):
    """f must not raise exc: a path on which it does has to contradict the assumptions."""
    from lumver.ctx import Infeasible
    try:
        r = f(*args, **kw)
    except exc as e:
        try:
            witness()
            if CTX.infeasible():
                raise Infeasible()
        except Infeasible:
            CTX.require(name, True)
            raise
        CTX.fail(name, f"raises {type(e).__name__}: {e}")
        raise Infeasible()
    CTX.require(name, True)
    return r

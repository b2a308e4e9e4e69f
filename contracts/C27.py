"""C27: mapping a function over a batch equals a loop over the batch, for every batch size and argument map."""
import collections

from contracts.common import *
from lumver import symnp
from lumver.terms import as_real
import numpy as np
from lumos.numpy.utils import lmap, cmap

OUT = collections.namedtuple("OUT", "first second")


class Token:
    """An argument that is not an array (a parameter tree, a function, ...)."""

    def __sym_rename__(self, *a):
        return self


def args_of(kinds, B):
    """kinds: 'v' mapped vectors, 's' mapped scalars, 'm' mapped matrices, 'f' whole array, 'o' object passed along."""
    a, axes, at, tok = [], [], [], Token()
    for i, k in enumerate(kinds):
        n, m = CTX.size(f"n{i}", 1), CTX.size(f"m{i}", 1)
        axes.append(None if k in "fo" else 0)
        if k == "s":
            a.append(vec(f"a{i}", B))
            at.append(lambda b, i=i: ("s", read(f"a{i}", [b])))
        elif k == "v":
            a.append(arr(f"a{i}", B, n))
            at.append(lambda b, i=i, n=n: ("v", n, lambda j: read(f"a{i}", [b, j])))
        elif k == "m":
            a.append(arr(f"a{i}", B, n, m))
            at.append(lambda b, i=i, n=n, m=m: ("m", n, m, lambda j, l: read(f"a{i}", [b, j, l])))
        elif k == "f":
            a.append(vec(f"a{i}", n))
            at.append(lambda b, i=i, n=n: ("v", n, lambda j: read(f"a{i}", [j])))
        else:
            a.append(tok)
            at.append(lambda b: ("o", tok))
    return a, axes, at


KINDS = ["v", "sv", "vf", "fv", "of", "om", "ovs", "mfv"]
KINDS = [k for k in KINDS if set(k) & set("svm")]


def tab(f, *spaces):
    sps = [s if isinstance(s, symnp.Space) else Atm(s) for s in spaces]
    return T(sps, lambda *c: f(*[s.lin(e) for s, e in zip(sps, c)]), "real")


def digest(x):
    """A number depending on every element of the argument: a sum against a free weight."""
    if isinstance(x, T):
        if x.ndim == 0:
            return as_real(lift(x.el()))
        w = "w%d" % x.ndim
        return tsum(x, lambda v, *c: lift(v) * read(w, [s.lin(e) for s, e in zip(x.spaces, c)]))
    return as_real(lift(x))


def digest_spec(a):
    if a[0] == "s":
        return a[1]
    if a[0] == "v":
        return ssum(a[1], lambda j: a[2](j) * read("w1", [j]))
    return ssum(a[1], a[2], lambda j, l: a[3](j, l) * read("w2", [j, l]))


@goal("lmap: arrays of results, for every batch size, argument kind and map")
def plain():
    kinds = KINDS[CTX.choose(len(KINDS))]
    B, q = CTX.size("B", 1), CTX.size("q", 1)
    a, axes, at = args_of(kinds, B)
    form = CTX.choose(4)                # array, tuple, namedtuple, scalar results

    def one(which, ds, j):
        return ufn(which, j, *ds)

    def fn(*xs):
        CTX.require("one value per argument", len(xs) == len(kinds))
        for x, k in zip(xs, kinds):
            if k == "o":
                CTX.require("objects are passed on", type(x) is Token)
        ds = [digest(x) for x, k in zip(xs, kinds) if k != "o"]
        v = lambda w: tab(lambda c: one(w, ds, c), q)
        if form == 0:
            return v("F")
        if form == 3:
            return one("F", ds, const(0))
        return (v("F"), v("G")) if form == 1 else OUT(v("F"), v("G"))
    in_axes = axes if None in axes or CTX.choose(2) else 0
    r = lmap(fn, in_axes)(*a)
    b = idx("b", B)
    ds = [digest_spec(f(b)) for f, k in zip(at, kinds) if k != "o"]
    if form == 3:
        shape_is("result", r, B)
        CTX.require_eq("element", elem(r, b), one("F", ds, const(0)))
        return
    j = idx("j", q)
    if form:
        CTX.require("container", type(r) is (tuple if form == 1 else OUT) and len(r) == 2)
        parts = list(zip(r, "FG"))
    else:
        parts = [(r, "F")]
    for t, w in parts:
        shape_is("result", t, B, q)
        CTX.require_eq("element", elem(t, b, j), one(w, ds, j))


class CasFunction:
    """Contract of a casadi Function with inputs of sizes `dims` (column vectors) and the given output shapes:
    its mapped version takes one column per batch element and puts the outputs side by side."""

    def __init__(self, dims, outs, sparse=None):
        self.dims, self.outs, self.sparse, self.mapped = dims, outs, sparse, []

    def map(self, batch, parallel="serial", threads=None):
        self.mapped.append(batch)

        def call(*args):
            CTX.require("one argument per input", len(args) == len(self.dims))
            for i, (x, d) in enumerate(zip(args, self.dims)):
                shape_is(f"argument {i}", x, d, batch)

            def column(b):
                return [ssum(d, lambda j: elem(x, j, b) * read("w1", [j])) for x, d in zip(args, self.dims)]
            if self.sparse is not None:
                return CasSparse(batch, self.sparse, lambda b, k: ufn("N", k, *column(b)))
            res = []
            for o, (m, k) in enumerate(self.outs):
                if k is None:       # a column vector per element
                    res.append(tab(lambda r, b, o=o: ufn(f"F{o}", r, *column(b)), m, batch))
                else:
                    sp = Prod(Atm(batch), Atm(k))
                    res.append(T((Atm(m), sp), lambda r, c, o=o: ufn(f"F{o}", r, c[1], *column(c[0])), "real"))
            return res[0] if len(res) == 1 else tuple(res)
        return call


class CasSparse:
    """Contract of a sparse result: the stored values of batch element 0, then of element 1, ..."""

    def __init__(self, batch, n, f):
        self.b, self.n, self.f = batch, n, f

    def nnz(self):
        return self.b * self.n

    def nonzeros(self):
        return T((Prod(Atm(self.b), Atm(self.n)),), lambda c: self.f(c[0], c[1]), "real")


def cas_call(f, kinds, dims, B, tag):
    a = [vec(f"{tag}{i}", d) if k == "f" else arr(f"{tag}{i}", B, d) for i, (k, d) in enumerate(zip(kinds, dims))]
    cols = lambda b: [ssum(d, lambda j: (read(f"{tag}{i}", [j]) if k == "f" else read(f"{tag}{i}", [b, j]))
                           * read("w1", [j])) for i, (k, d) in enumerate(zip(kinds, dims))]
    return f(*a), cols


@goal("cmap: every batch element in order, mapped and unmapped arguments, also after a change of batch size")
def casadi_map():
    kinds = ["v", "vf", "fv", "fvf", "vv"][CTX.choose(5)]
    dims = [CTX.size(f"d{i}", 1) for i in range(len(kinds))]
    m, k = CTX.size("m", 1), CTX.size("k", 1)
    sparse = CTX.choose(3)          # 0: one output, 1: two outputs, 2: stored values of a sparse output
    fn = CasFunction(dims, [(m, None)] if sparse == 0 else [(m, None), (k, None)], k if sparse == 2 else None)
    axes = [None if c == "f" else 0 for c in kinds]
    f = cmap(fn, 0 if "f" not in kinds and CTX.choose(2) else axes, CTX.size("threads", 1), sparse == 2)
    B = [CTX.size("B0", 1)] * 2
    if CTX.choose(2):               # two different batch sizes
        B = [B[0], CTX.size("B1", 1)]
        CTX.assume(bnot(eq(B[0], B[1])))
    for t in (0, 1, 0):
        r, cols = cas_call(f, kinds, dims, B[t], f"x{t}_")
        b = idx(f"b{t}", B[t])
        if sparse == 2:
            shape_is("stored values", r, B[t], k)
            j = idx(f"j{t}", k)
            CTX.require_eq("stored value", elem(r, b, j), ufn("N", j, *cols(b)))
        elif sparse == 0:
            shape_is("result", r, B[t], m)
            j = idx(f"j{t}", m)
            CTX.require_eq("element", elem(r, b, j), ufn("F0", j, *cols(b)))
        else:
            CTX.require("two results", isinstance(r, tuple) and len(r) == 2)
            for o, n in enumerate((m, k)):
                shape_is("result", r[o], B[t], n)
                j = idx(f"j{t}{o}", n)
                CTX.require_eq("element", elem(r[o], b, j), ufn(f"F{o}", j, *cols(b)))


@canary("the next element must be refuted")
def wrong():
    B = CTX.size("B", 2)
    r = lmap(lambda x: x, 0)(vec("a", B))
    b = idx("b", B - 1)
    CTX.require_eq("element", elem(r, b), read("a", [b + 1]))

"""Trusted contracts of the numpy functions the verified code calls, for symbolic arguments.
Concrete arguments go to the real numpy."""
import contextlib
import builtins
import numpy as _np
from fractions import Fraction

from lumver.terms import (P, B, CTX, SUM, TRUE, FALSE, INF, Unsupported, apoly, as_real, band, bnot, bsubst,
                          bor, const, divide, eq, fn as tfn, fresh, ge0, iverson, le, lift, read,
                          split_eq, subst, sym, tob, vid, _poly_in, ATOMS, single_atom)
from lumver.tensor import (T, Atm, Prod, Cat, DSum, Filt, Space, LocalEx, local_cases, split_sum, tsum,
                           conv, any_coord, _pyint, euclid)
from lumver.seq import SList, is_symseq, SymSeq, as_seq


def symbolic(x, depth=3):
    if isinstance(x, (P, B, T)):
        return True
    if is_symseq(x):
        return True
    if depth and isinstance(x, (list, tuple)):
        return builtins.any(symbolic(y, depth - 1) for y in x)
    if isinstance(x, slice):
        return symbolic(x.start) or symbolic(x.stop) or symbolic(x.step)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return True
    return False


def kind_of(v):
    if isinstance(v, B) or isinstance(v, (bool, _np.bool_)):
        return "bool"
    if isinstance(v, P):
        return v.sort
    if isinstance(v, (int, _np.integer)):
        return "int"
    return "real"


def asT(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (P, B)):
        return T((), lambda: x, kind_of(x))
    if isinstance(x, (bool, int, float, _np.integer, _np.floating, _np.bool_, Fraction)):
        return T((), lambda: x if not isinstance(x, (float, _np.floating)) else lift(x), kind_of(x))
    if isinstance(x, _np.ndarray):
        if x.dtype == object:
            k = "real" if builtins.any(kind_of(v) == "real" for v in x.ravel()) else (
                "int" if x.size else "real")
        else:
            k = {"i": "int", "u": "int", "b": "bool"}.get(x.dtype.kind, "real")
        x = x.copy()

        def f(*c):
            return _table(x, c)

        return T([Atm(n) for n in x.shape], f, k)
    if isinstance(x, (list, tuple)) or is_symseq(x):
        return array(x)
    return None


def _table(x, c):
    """Element of a concrete array at a possibly symbolic index."""
    idx = []
    for ax, i in enumerate(c):
        i = lift(i)
        if i.is_const():
            idx.append(int(i.const()))
        else:
            n = x.shape[ax]
            for k in range(n - 1):
                if bool(eq(i, const(k))):
                    idx.append(k)
                    break
            else:
                idx.append(n - 1)
    v = x[tuple(idx)]
    if isinstance(v, (_np.bool_, bool)):
        return bool(v)
    return v if isinstance(v, (P, B)) else lift(v)


class ShapeError(ValueError):
    pass


def _pick(a, b):
    """Which of two equal-size spaces to keep: the more structured one."""
    rank = lambda s: 0 if isinstance(s, Atm) else 1
    return a if rank(a) >= rank(b) else b


def sizes_equal(a, b):
    if isinstance(a, Filt) or isinstance(b, Filt):
        return a.same(b) if type(a) is type(b) else CTX.prove(eq(a.size(), b.size()))
    sa, sb = a.size(), b.size()
    if CTX.is_zero(sa - sb):
        return True
    return bool(eq(sa, sb))


def is_one(s):
    if isinstance(s, Filt):
        return False
    z = s.size()
    return z.is_const() and z.const() == 1


def broadcast_spaces(ts):
    nd = builtins.max((t.ndim for t in ts), default=0)
    out = []
    for ax in range(nd):
        cur = None
        for t in ts:
            k = ax - (nd - t.ndim)
            if k < 0:
                continue
            s = t.spaces[k]
            if cur is None or is_one(cur):
                cur = s if cur is None or not is_one(s) else cur
            elif is_one(s):
                pass
            else:
                if not sizes_equal(cur, s):
                    if bool(eq(s.size(), const(1))):
                        continue
                    if bool(eq(cur.size(), const(1))):
                        cur = s
                        continue
                    raise ShapeError(f"operands could not be broadcast together: {cur} vs {s}")
                cur = _pick(cur, s)
        out.append(cur)
    return out


def bget(t, f, out, c):
    """Read operand t (snapshot f) of a broadcast result at coordinate c."""
    off = len(out) - t.ndim
    cc = []
    for k, s in enumerate(t.spaces):
        o = out[off + k]
        if s is o:
            cc.append(c[off + k])
        elif is_one(s) and not is_one(o):
            cc.append(s.decode(const(0)))
        else:
            cc.append(conv(c[off + k], o, s))
    return f(*cc)


def elementwise(f, ts, kind=None):
    out = broadcast_spaces(ts)
    snaps = [t._snap() for t in ts]
    if kind is None:
        ks = [t.kind for t in ts]
        kind = "real" if "real" in ks else ("int" if "int" in ks else ("int" if "bool" in ks else "object"))
    return T(out, lambda *c: f(*[_e(bget(t, s, out, c)) for t, s in zip(ts, snaps)]), kind)


def _e(v):
    if isinstance(v, (P, B)):
        return v
    l = lift(v)
    return v if l is None else l


# ------------------------------------------------------------------ constructors
def _shape(shape):
    if isinstance(shape, (int, P, _np.integer)):
        return (shape,)
    if isinstance(shape, T):
        return tuple(aslist(shape))
    return tuple(shape)


def _kind(dtype, default="real"):
    if dtype is None:
        return default
    if dtype in (int, "int", "int32", "int64", _np.int32, _np.int64):
        return "int"
    if dtype in (bool, "bool", _np.bool_):
        return "bool"
    return "real"


def _cast(v, kind):
    v = lift(v) if not isinstance(v, B) else v
    if kind == "bool":
        return tob(v) if not isinstance(v, P) or not v.is_const() else tob(bool(v.const()))
    if kind == "real":
        return as_real(lift(v))
    return v


def full(shape, v, dtype=None, **kw):
    if isinstance(v, T) and v.ndim:
        return broadcast_to(v, shape)
    k = _kind(dtype, kind_of(v))
    v = _cast(v, k)
    return T([Atm(n) for n in _shape(shape)], lambda *c: v, k)


def ones(shape, dtype=None, **kw):
    return full(shape, 1, dtype or float)


def zeros(shape, dtype=None, **kw):
    return full(shape, 0, dtype or float)


def empty(shape, dtype=None, **kw):
    return zeros(shape, dtype)


def full_like(x, v, dtype=None):
    x = asT(x)
    k = _kind(dtype, x.kind)
    v = _cast(v, k)
    return T(x.spaces, lambda *c: v, k)


def ones_like(x, dtype=None):
    return full_like(x, 1, dtype)


def zeros_like(x, dtype=None):
    return full_like(x, 0, dtype)


empty_like = zeros_like


def eye(n, m=None, dtype=None, **kw):
    m = n if m is None else m
    k = _kind(dtype)
    return T([Atm(n), Atm(m)], lambda i, j: _cast(iverson(eq(lift(i), lift(j))), k), k)


identity = eye


def arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    start, stop = lift(start), lift(stop)
    if step != 1:
        step = lift(step)
        q, r = divide(stop - start, step)
        if q is None or r.d:
            raise Unsupported("arange with a step")
        return T([Atm(q)], lambda i: start + lift(i) * step, "int")
    n = stop - start
    if not CTX.prove(ge0(n)):
        if bool(ge0(-n)):
            n = const(0)
    return T([Atm(n)], lambda i: start + lift(i), "real" if dtype is float or start.sort == "real" else "int")


def linspace(start, stop, num=50, endpoint=True, **kw):
    start, stop, num = lift(start), lift(stop), lift(num)
    d = num - 1 if endpoint else num
    return T([Atm(num)], lambda i: as_real(start) + (stop - start) * lift(i) / d, "real")


def array(x, dtype=None, copy=True, **kw):
    if isinstance(x, T):
        return x.copy() if dtype is None else x.astype(dtype)
    if isinstance(x, (P, B)):
        return asT(x)
    if isinstance(x, _np.ndarray):
        return asT(x)
    tl = getattr(x, "tensor", None)
    if tl is not None and len(x.segs) == 1 and x.segs[0] is tl[1]:
        return tl[0].copy() if dtype is None else tl[0].astype(dtype)
    s = as_seq(x)
    if s is None:
        raise Unsupported(f"np.array of {type(x)}")
    if s.concrete():
        items = s.items()
        if not items:
            return T([Atm(0)], lambda i: const(0), _kind(dtype))
    r = stack(s)
    if dtype is not None:
        r = r.astype(dtype)
    return r


def asarray(x, dtype=None, **kw):
    if isinstance(x, T) and dtype is None:
        return x
    return array(x, dtype)


def copy(x, **kw):
    return asT(x).copy()


def aslist(t):
    t = asT(t)._frozen()
    n = t.spaces[0].size()
    if n.is_const():
        n = int(n.const())
        if t.ndim == 1:
            return [_pyint(t.at(i)) for i in range(n)]
        return [aslist(t[i]) for i in range(n)]
    if t.ndim == 1:
        snap, s0 = t._snap(), t.spaces[0]
        return SymSeq([("map", n, lambda k: snap(s0.decode(lift(k))))])
    return SymSeq([("map", n, lambda k: t[k])])


# ---------------------------------------------------------------------- reshaping
def _factors(t):
    """1-D factor space of the C-ordered ravel."""
    if t.ndim == 0:
        return Atm(1)
    if t.ndim == 1:
        return t.spaces[0]
    return Prod(*t.spaces)


def ravel(x, order="C"):
    if order not in ("C", "F"):
        raise Unsupported("order by memory layout")
    x = asT(x)
    if order == "F":
        x = x.T
    snap = x._snap()
    if x.ndim == 1:
        return T(x.spaces, snap, x.kind, x.buf)
    if x.ndim == 0:
        return T([Atm(1)], lambda c: snap(), x.kind, x.buf)
    sp = Prod(*x.spaces)
    lens = [len(s.fs) if isinstance(s, Prod) else 1 for s in x.spaces]

    def f(c):
        out = []
        k = 0
        for s, n in zip(x.spaces, lens):
            out.append(tuple(c[k:k + n]) if isinstance(s, Prod) else c[k])
            k += n
        return snap(*out)

    return T([sp], f, x.kind, x.buf)


def reshape(x, shape, order="C", **kw):
    x = asT(x)
    if order != "C":
        if order == "F":
            return transpose(reshape(x.T, tuple(reversed(_shape(shape)))))
        raise Unsupported("reshape order")
    shape = _shape(shape)
    shape = [s.item() if isinstance(s, T) else s for s in shape]
    flat = ravel(x)
    fsnap = flat._snap()
    total = flat.spaces[0].size()
    known = const(1)
    hole = None
    for i, s in enumerate(shape):
        s = lift(s)
        if s.is_const() and s.const() == -1:
            if hole is not None:
                raise ValueError("can only specify one unknown dimension")
            hole = i
        else:
            known = known * s
    dims = [lift(s) for s in shape]
    if hole is not None:
        q, r = divide(total, known)
        if q is None or r.d:
            q, r = divide(CTX.norm(total), CTX.norm(known))
        if q is None or r.d:
            if q is not None and CTX.prove(eq(r, const(0))):
                pass
            elif q is not None and bool(eq(r, const(0))):
                pass
            else:
                raise ShapeError(f"cannot reshape size {total} into {shape}")
        dims[hole] = q
    else:
        if not CTX.is_zero(total - known) and not bool(eq(total, known)):
            raise ShapeError(f"cannot reshape array of size {total} into shape {shape}")
    fs = flat.spaces[0]
    factors = list(fs.fs) if isinstance(fs, Prod) else [fs]
    # try to match groups of factors
    groups = []
    k = 0
    ok = True
    for d in dims:
        acc = const(1)
        g = []
        if d.is_const() and d.const() == 1:
            groups.append(g)
            continue
        while k < len(factors) and not CTX.is_zero(acc - d):
            acc = acc * factors[k].size()
            g.append(factors[k])
            k += 1
        if not CTX.is_zero(acc - d):
            ok = False
            break
        groups.append(g)
    if ok and builtins.any(not CTX.is_zero(f.size() - 1) for f in factors[k:]):
        ok = False
    if ok:
        tail = factors[k:]
        spaces = []
        for d, g in zip(dims, groups):
            spaces.append(Atm(1) if not g else (g[0] if len(g) == 1 else Prod(*g)))

        def f(*c):
            out = []
            for x_, g in zip(c, groups):
                if not g:
                    continue
                out.extend([x_] if len(g) == 1 else list(x_))
            out += [s.decode(const(0)) for s in tail]
            return fsnap(tuple(out) if isinstance(fs, Prod) else out[0])

        return T(spaces, f, x.kind, x.buf)
    sps = [Atm(d) for d in dims]
    if isinstance(fs, Filt):
        raise Unsupported("reshape of a boolean-mask selection")

    def g(*c):
        lin = const(0)
        for s, i in zip(sps, c):
            lin = lin * s.n + lift(i)
        return fsnap(fs.decode(lin))

    return T(sps, g, x.kind, x.buf)


def transpose(x, axes=None):
    x = asT(x)
    if axes is None:
        return x.T
    axes = [a % x.ndim for a in axes]
    inv = [axes.index(i) for i in range(x.ndim)]
    snap = x._snap()
    r = T([x.spaces[a] for a in axes], lambda *c: snap(*[c[inv[i]] for i in range(x.ndim)]), x.kind, x.buf)
    return r.view_of(x, lambda b: transpose(b, axes), lambda b, t: b._write(transpose(t, inv)._fn))


def swapaxes(x, a, b):
    ax = list(range(asT(x).ndim))
    ax[a], ax[b] = ax[b], ax[a]
    return transpose(x, ax)


def moveaxis(x, a, b):
    x = asT(x)
    a, b = a % x.ndim, b % x.ndim
    ax = [i for i in range(x.ndim) if i != a]
    ax.insert(b, a)
    return transpose(x, ax)


def squeeze(x, axis=None):
    x = asT(x)
    if axis is None:
        drop = [i for i, s in enumerate(x.spaces) if is_one(s) or not lift(s.size()).is_const()
                and bool(eq(lift(s.size()), const(1)))]
    else:
        drop = [a % x.ndim for a in ([axis] if isinstance(axis, int) else axis)]
    keep = [i for i in range(x.ndim) if i not in drop]
    snap = x._snap()

    def f(*c):
        out = []
        k = 0
        for i in range(x.ndim):
            if i in drop:
                out.append(x.spaces[i].decode(const(0)))
            else:
                out.append(c[k])
                k += 1
        return snap(*out)

    return T([x.spaces[i] for i in keep], f, x.kind, x.buf)


def expand_dims(x, axis):
    x = asT(x)
    axes = [axis] if isinstance(axis, int) else list(axis)
    nd = x.ndim + len(axes)
    axes = [a % nd for a in axes]
    sp = []
    it = iter(x.spaces)
    for i in range(nd):
        sp.append(Atm(1) if i in axes else next(it))
    snap = x._snap()
    return T(sp, lambda *c: snap(*[v for i, v in enumerate(c) if i not in axes]), x.kind, x.buf)


def atleast_1d(x):
    x = asT(x)
    return x if x.ndim else reshape(x, (1,))


def atleast_2d(x):
    x = asT(x)
    if x.ndim == 0:
        return reshape(x, (1, 1))
    return x if x.ndim >= 2 else expand_dims(x, 0)


def broadcast_to(x, shape):
    x = asT(x)
    z = full(shape, 0)
    out = broadcast_spaces([z, x])
    s = x._snap()
    return T(out, lambda *c: bget(x, s, out, c), x.kind)


# ------------------------------------------------------------------ concatenation
def _kinds(ts):
    ks = [t.kind for t in ts]
    return "real" if "real" in ks else ("int" if "int" in ks else "bool")


def _seq_tensors(xs, join=None, prep=lambda t: t):
    """A sequence of tensors, as segments: ('lit', [T]) or ('map', n, k -> T).
    `join` turns the parts of one period of a flattened segment into one tensor."""
    if isinstance(xs, T):
        xs = xs._frozen()
        n = xs.spaces[0].size()
        if n.is_const():
            return [("lit", [xs[i] for i in range(int(n.const()))])]
        return [("map", n, lambda k: xs[k])]
    s = as_seq(xs)
    if s is None:
        raise Unsupported(f"sequence of arrays expected, got {type(xs)}")
    out = []
    for seg in s.segs:
        if seg[0] == "lit":
            out.append(("lit", [prep(asT(x)) for x in seg[1]]))
        elif seg[0] == "flat":
            if join is None:
                raise Unsupported("stacking a flattened sequence")
            out.append(("map", seg[1], lambda k, g=seg[2]: join(g(k))))
        else:
            out.append(("map", seg[1], lambda k, g=seg[2]: prep(asT(g(k)))))
    return out


def concatenate(xs, axis=0, **kw):
    segs = _seq_tensors(xs, lambda y: concatenate(y, axis=axis))
    if axis is None:
        segs = [("lit", [ravel(t) for t in s[1]]) if s[0] == "lit" else
                ("map", s[1], lambda k, g=s[2]: ravel(g(k))) for s in segs]
        axis = 0
    parts = []      # (space, getter(coord)->T-element reader, sample)
    samples = []
    for s in segs:
        if s[0] == "lit":
            for t in s[1]:
                parts.append(("one", t, t._snap()))
                samples.append(t)
        else:
            v = fresh("b")
            with CTX.local_vars([(v, s[1])]):
                smp = s[2](v)
            samples.append(smp)
            parts.append(("many", s[1], s[2]))
    if not samples:
        raise ValueError("need at least one array to concatenate")
    nd = samples[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if builtins.any(t.ndim != nd for t in samples):
        raise ShapeError("all the input array dimensions must match")
    ax = axis % nd
    spaces = []
    other = [None] * nd
    for i in range(nd):
        if i == ax:
            continue
        cur = samples[0].spaces[i]
        for t in samples[1:]:
            if not sizes_equal(cur, t.spaces[i]):
                raise ShapeError("all the input array dimensions except for the concatenation axis must match")
            cur = _pick(cur, t.spaces[i])
        other[i] = cur
    ps = []
    for p, smp in zip(parts, samples):
        if p[0] == "one":
            ps.append(p[1].spaces[ax])
        else:
            ps.append(DSum(p[1], lambda k, g=p[2]: g(k).spaces[ax]))
    if len(parts) == 1 and parts[0][0] == "one":
        cat = ps[0]
        single = True
    elif len(parts) == 1:
        cat = ps[0]
        single = True
        # equal-size parts: a product space
        v = fresh("b")
        with CTX.local_vars([(v, parts[0][1])]):
            sp = parts[0][2](v).spaces[ax]
        cat = _uniform(parts[0][1], sp, v) or cat
    else:
        # drop statically empty parts
        keep = [i for i, s in enumerate(ps) if isinstance(s, Filt) or not CTX.is_zero(s.size())]
        parts = [parts[i] for i in keep]
        ps = [ps[i] for i in keep]
        if not ps:
            return T([Atm(0) if i == ax else other[i] for i in range(nd)], lambda *c: const(0), _kinds(samples))
        if len(ps) == 1:
            cat, single = ps[0], True
        else:
            cat, single = Cat(ps), False

    def f(*c):
        x = c[ax]
        if single:
            i, y = 0, x
        else:
            i, y = x
        p = parts[i]
        if p[0] == "one":
            t, snap = p[1], p[2]
            cc = [y if j == ax else conv(c[j], other[j], t.spaces[j]) for j in range(nd)]
            return snap(*cc)
        if isinstance(cat, Prod) and single:
            k = y[0]
            t = p[2](k)
            rest = y[1:] if isinstance(t.spaces[ax], Prod) else y[1]
        else:
            k, rest = y
            t = p[2](k)
        cc = [rest if j == ax else conv(c[j], other[j], t.spaces[j]) for j in range(nd)]
        return t.el(*cc)

    return T([cat if i == ax else other[i] for i in range(nd)], f, _kinds(samples))


def _uniform(n, sp, v):
    """Prod(n, sp) when the part space does not depend on the part index v."""
    if isinstance(sp, (Atm, Prod)) and vid(v) not in sp.size().fv:
        return Prod(Atm(n), sp)
    return None


def stack(xs, axis=0, **kw):
    segs = _seq_tensors(xs)
    samples = []
    for s in segs:
        if s[0] == "lit":
            samples += s[1]
        else:
            v = fresh("b")
            with CTX.local_vars([(v, s[1])]):
                samples += [t for _, t in local_cases(lambda: s[2](v))]
    if not samples:
        raise ValueError("need at least one array to stack")
    nd = samples[0].ndim
    for t in samples[1:]:
        if t.ndim != nd or not builtins.all(sizes_equal(a, b) for a, b in zip(samples[0].spaces, t.spaces)):
            raise ShapeError("all input arrays must have the same shape")
    base = samples[0].spaces
    ax = axis % (nd + 1)
    if len(segs) == 1 and segs[0][0] == "map":
        n, g = segs[0][1], segs[0][2]
        sp = Atm(n)

        def f(*c):
            k = c[ax]
            t = g(k)
            cc = [x for i, x in enumerate(c) if i != ax]
            return t.el(*[conv(x, b, s) for x, b, s in zip(cc, base, t.spaces)])
    elif builtins.all(s[0] == "lit" for s in segs):
        items = [t for s in segs for t in s[1]]
        snaps = [t._snap() for t in items]
        sp = Atm(len(items))

        def f(*c):
            k = lift(c[ax])
            cc = [x for i, x in enumerate(c) if i != ax]
            if not k.is_const():
                for j in range(len(items) - 1):
                    if bool(eq(k, const(j))):
                        k = const(j)
                        break
                else:
                    k = const(len(items) - 1)
            j = int(k.const())
            t = items[j]
            return snaps[j](*[conv(x, b, s) for x, b, s in zip(cc, base, t.spaces)])
    else:
        parts = [expand_dims(t, ax) for t in []]
        pieces = []
        for s in segs:
            if s[0] == "lit":
                pieces += [expand_dims(t, ax) for t in s[1]]
            else:
                pieces.append(stack(SymSeq([("map", s[1], s[2])]), axis=ax))
        return concatenate(pieces, axis=ax)
    sps = list(base)
    sps.insert(ax, sp)
    return T(sps, f, _kinds(samples))


def hstack(xs, **kw):
    segs = _seq_tensors(xs, hstack, atleast_1d)
    nd = _first(segs).ndim
    return concatenate(SymSeq(segs), axis=0 if nd == 1 else 1)


def vstack(xs, **kw):
    return concatenate(SymSeq(_seq_tensors(xs, vstack, atleast_2d)), axis=0)


row_stack = vstack


def column_stack(xs):
    segs = _seq_tensors(xs)
    fix = lambda t: transpose(atleast_2d(t)) if t.ndim < 2 else t
    segs = [("lit", [fix(t) for t in s[1]]) if s[0] == "lit" else
            ("map", s[1], lambda k, g=s[2]: fix(g(k))) for s in segs]
    return concatenate(SymSeq(segs), axis=1)


def _first(segs):
    for s in segs:
        if s[0] == "lit":
            if s[1]:
                return s[1][0]
        else:
            v = fresh("b")
            with CTX.local_vars([(v, s[1])]):
                return s[2](v)
    raise ValueError("need at least one array to concatenate")


def append(a, b, axis=None):
    if axis is None:
        return concatenate([ravel(asT(a)), ravel(asT(b))])
    return concatenate([asT(a), asT(b)], axis=axis)


def insert(a, i, v, axis=None):
    a = asT(a)
    if axis is not None and a.ndim > 1:
        axis %= a.ndim
        v = asT(v)
        if v.ndim == a.ndim - 1:
            v = expand_dims(v, axis)
        one = list(shape(a))
        one[axis] = 1 if v.ndim == 0 else shape(v)[axis]
        cut = lambda k: getitem(a, tuple([slice(None)] * axis + [k]))
        return concatenate([cut(slice(None, i)), broadcast_to(v, tuple(one)), cut(slice(i, None))], axis=axis)
    a = ravel(a)
    v = atleast_1d(asT(v))
    return concatenate([a[:i], v, a[i:]])


def tile(x, reps):
    x = asT(x)
    reps = _shape(reps)
    nd = builtins.max(x.ndim, len(reps))
    reps = (1,) * (nd - len(reps)) + tuple(reps)
    while x.ndim < nd:
        x = expand_dims(x, 0)
    spaces, modes = [], []
    for s, r in zip(x.spaces, reps):
        if isinstance(r, int) and r == 1:
            spaces.append(s)
            modes.append(0)
        elif is_one(s):
            spaces.append(Atm(r))
            modes.append(1)
        else:
            spaces.append(Prod(Atm(r), s))
            modes.append(2)
    snap = x._snap()

    def f(*c):
        out = []
        for s, m, v in zip(x.spaces, modes, c):
            if m == 0:
                out.append(v)
            elif m == 1:
                out.append(s.decode(const(0)))
            else:
                out.append(v[1:] if isinstance(s, Prod) else v[1])
        return snap(*out)

    return T(spaces, f, x.kind)


def repeat(x, n, axis=None):
    x = asT(x)
    if axis is None:
        x = ravel(x)
        axis = 0
    axis %= x.ndim
    if isinstance(n, T) or isinstance(n, (list, tuple)):
        raise Unsupported("repeat with an array of counts")
    s = x.spaces[axis]
    sp = Prod(s, Atm(n))
    snap = x._snap()

    def f(*c):
        c = list(c)
        v = c[axis]
        c[axis] = v[:-1] if isinstance(s, Prod) else v[0]
        return snap(*c)

    return T([sp if i == axis else q for i, q in enumerate(x.spaces)], f, x.kind)


def split(x, idx, axis=0):
    x = asT(x)._frozen()
    axis %= x.ndim
    if isinstance(idx, (int, P)) and not isinstance(idx, T):
        n = lift(idx)
        q, r = divide(x.spaces[axis].size(), n)
        if q is None or r.d:
            raise ShapeError("array split does not result in an equal division")
        if n.is_const():
            return SList([_slice_axis(x, axis, q * k, q * (k + 1)) for k in range(int(n.const()))])
        return SymSeq([("map", n, lambda k: _slice_axis(x, axis, q * k, q * (lift(k) + 1)))])
    if isinstance(idx, _np.ndarray) or isinstance(idx, (list, tuple)) and not is_symseq(idx):
        pts = [lift(i) for i in idx]
    elif isinstance(idx, T) and idx.spaces[0].size().is_const():
        pts = [lift(i) for i in aslist(idx)]
    else:
        # symbolic number of split points
        s = idx if isinstance(idx, T) else array(idx)
        n = s.spaces[0].size()
        total = x.spaces[axis].size()

        v = fresh("b")
        try:
            with CTX.local_vars([(v, n + 1)]):
                F = lift(s.el(v - 1)) if isinstance(s.spaces[0], Atm) else None
            uni = F is not None and CTX.is_zero(subst(F, {vid(v): const(0)})) and CTX.is_zero(
                subst(F, {vid(v): n + 1}) - total)
            if uni:
                inc = _increment(F, v)
                with CTX.local_vars([(v, n + 1)]):
                    uni = inc is not None and CTX.prove(ge0(inc))
        except Unsupported:
            uni = False

        def piece(k):
            k = lift(k)
            if uni:      # split points are a prefix sum F with F(0) = 0 and F(n + 1) = size
                return _take_range(x, axis, subst(F, {vid(v): k}), subst(inc, {vid(v): k}))
            lo = const(0) if bool(eq(k, const(0))) else s.at(k - 1)
            hi = total if bool(eq(k, n)) else s.at(k)
            return _slice_axis(x, axis, lo, hi)

        return SymSeq([("map", n + 1, piece)])
    out = []
    prev = const(0)
    for p in pts + [x.spaces[axis].size()]:
        out.append(_slice_axis(x, axis, prev, p))
        prev = p
    return SList(out)


def _increment(F, v):
    """F(v+1) - F(v) for F a sum of prefix sums over j < v and terms affine in v."""
    out = const(0)
    for m, co in F.d.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "sum":
            vs, body = ATOMS[m[0][0]].meta
            if len(vs) == 1 and CTX.is_zero(lift(vs[0][1]) - v) and vid(v) not in body.fv:
                out = out + co * subst(body, {vid(vs[0][0]): v})
                continue
        return None
    return out


def _take_range(x, axis, a, ln):
    """Elements [a, a+ln) of an axis; the caller has shown the range to be inside it."""
    s2, mp = _slice_space(x.spaces[axis], a, ln)
    snap = x._snap()

    def f(*c):
        c = list(c)
        c[axis] = mp(c[axis])
        return snap(*c)

    return T([s2 if i == axis else s for i, s in enumerate(x.spaces)], f, x.kind, x.buf)


def array_split(x, idx, axis=0):
    return split(x, idx, axis)


def _slice_axis(x, axis, lo, hi):
    key = [slice(None)] * x.ndim
    key[axis] = slice(lo, hi)
    return getitem(x, tuple(key))


# ----------------------------------------------------------------------- indexing
def _norm_idx(i, n, what="index"):
    i = lift(i)
    if i.is_const() and i.const() < 0:
        i = i + n
    elif not CTX.prove(ge0(i)):
        if CTX.prove(ge0(-i - 1)) or bool(ge0(-i - 1)):
            i = i + n
    return i


def _slice_bounds(s, n):
    """start, length of a step-1 slice (numpy clamping)."""
    def clamp(v, default):
        if v is None:
            return default
        v = lift(v)
        if v.is_const() and v.const() < 0 or not CTX.prove(ge0(v)) and (
                CTX.prove(ge0(-v - 1)) or bool(ge0(-v - 1))):
            v = v + n
            if not CTX.prove(ge0(v)) and bool(ge0(-v - 1)):
                return const(0)
        if CTX.prove(ge0(n - v)) or not bool(ge0(v - n - 1)):
            return v
        return n
    a = clamp(s.start, const(0))
    b = clamp(s.stop, n)
    ln = b - a
    if not CTX.prove(ge0(ln)) and bool(ge0(-ln)):
        ln = const(0)
    return a, ln


def _slice_space(sp, a, ln):
    """Sub-space [a, a+ln) with a map from its coordinates to those of sp."""
    if CTX.is_zero(a) and (not isinstance(sp, Filt)) and CTX.is_zero(sp.size() - ln):
        return sp, (lambda c: c)
    if isinstance(sp, Filt):
        raise Unsupported("slice of a boolean-mask selection")
    if isinstance(sp, Cat):
        # aligned with part boundaries?
        offs = [sp.offset(i) for i in range(len(sp.parts) + 1)]
        i0 = next((i for i, o in enumerate(offs) if CTX.is_zero(o - a)), None)
        i1 = next((i for i in reversed(range(len(offs))) if CTX.is_zero(offs[i] - a - ln)), None)
        if i0 is not None and i1 is not None and i0 < i1:
            ps = sp.parts[i0:i1]
            if len(ps) == 1:
                return ps[0], (lambda c: (i0, c))
            return Cat(ps), (lambda c: (c[0] + i0, c[1]))
        # inside one part
        for i, q in enumerate(sp.parts):
            if isinstance(q, Filt):
                continue
            if CTX.prove(ge0(a - offs[i])) and CTX.prove(ge0(offs[i + 1] - a - ln)):
                s2, m = _slice_space(q, a - offs[i], ln)
                return s2, (lambda c: (i, m(c)))
    if isinstance(sp, Prod):
        # whole rows of the first factor
        inner = Prod(*sp.fs[1:]) if len(sp.fs) > 2 else sp.fs[1]
        z = inner.size()
        qa, ra = divide(a, z)
        qn, rn = divide(ln, z)
        if qa is not None and qn is not None and not ra.d and not rn.d and isinstance(sp.fs[0], Atm):
            return Prod(Atm(qn), *sp.fs[1:]), (lambda c: (lift(c[0]) + qa,) + tuple(c[1:]))
    if isinstance(sp, DSum):
        for m, co in a.d.items():
            if co == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "sum":
                vs, body = ATOMS[m[0][0]].meta
                if len(vs) == 1:
                    k = vs[0][1]
                    if CTX.is_zero(a - sp.offset(k)) and CTX.is_zero(ln - sp.sp(k).size()):
                        return sp.sp(k), (lambda c: (k, c))
        if CTX.is_zero(a) and CTX.is_zero(ln - sp.sp(const(0)).size()):
            return sp.sp(const(0)), (lambda c: (const(0), c))
    return Atm(ln), (lambda c: sp.decode(lift(c) + a))


def _is_arr(k):
    return isinstance(k, T) and k.ndim > 0 or isinstance(k, (list, _np.ndarray)) or is_symseq(k)


def _expand_key(x, key):
    key = key if isinstance(key, tuple) else (key,)
    key = list(key)
    n = builtins.sum(1 for k in key if k is not None and k is not Ellipsis and not (
        isinstance(k, T) and k.kind == "bool"))
    n += builtins.sum(k.ndim for k in key if isinstance(k, T) and k.kind == "bool")
    if builtins.any(k is Ellipsis for k in key):
        i = next(i for i, k in enumerate(key) if k is Ellipsis)
        key[i:i + 1] = [slice(None)] * (x.ndim - n)
    else:
        key += [slice(None)] * (x.ndim - n)
    return key


def _idx_tensor(k):
    if isinstance(k, T):
        return k
    t = asT(k) if not isinstance(k, _np.ndarray) else asT(k)
    return t


def _check_bounds(t, n, what):
    """Every element of the index array t is in [0, n): obligation, with negative wrap."""
    alts = [([], (), TRUE)]
    for s in t.spaces:
        if not isinstance(s, Filt) and CTX.is_zero(s.size()):
            return False
        alts = [(vs + v2, c + (c2,), band(b, b2)) for vs, c, b in alts for v2, c2, b2 in s.binders()]
    neg = None
    for vs, c, b in alts:
        with CTX.local_vars(vs):
            def body():
                e = lift(t.el(*c))
                return e
            for cond, e in local_cases(body):
                with CTX.assuming(band(cond, b)):
                    if CTX.prove(band(ge0(e), ge0(n - 1 - e))):
                        neg = False if neg is None or neg is False else "mixed"
                        continue
                    if CTX.prove(band(ge0(-e - 1), ge0(e + n))):
                        neg = True if neg is None or neg is True else "mixed"
                        continue
                    CTX.fail(f"index-in-bounds", f"index {e} of an axis of size {n} ({what})")
                    raise IndexError("index out of bounds (cannot be excluded)")
    if neg == "mixed" and what == "write":
        raise Unsupported("index array of mixed sign")
    return neg or False


def getitem(x, key):
    key0 = key
    key = _expand_key(x, key)
    if len([k for k in key if k is not None]) > x.ndim and not builtins.any(
            isinstance(k, T) and k.kind == "bool" for k in key):
        raise IndexError("too many indices for array")
    adv = [i for i, k in enumerate(key) if _is_arr(k)]
    ax = 0
    plan = []       # per source axis: how to compute its coordinate
    spaces = []
    advs = []
    view = True
    for k in key:
        if k is None:
            spaces.append(Atm(1))
            plan.append(("new",))
            continue
        sp = x.spaces[ax]
        if isinstance(k, slice):
            if k.step not in (None, 1):
                if k.step == -1 and k.start is None and k.stop is None:
                    n = sp.size()
                    spaces.append(Atm(n))
                    plan.append(("map", len(spaces) - 1, lambda c, sp=sp, n=n: sp.decode(n - 1 - lift(c))))
                    ax += 1
                    continue
                st = lift(k.step)
                n = sp.size()
                a = lift(k.start) if k.start is not None else const(0)
                if st.is_const() and st.const() > 1 or CTX.prove(ge0(st - 1)):
                    stop = n if k.stop is None else lift(k.stop)
                    if k.stop is not None and not (CTX.prove(ge0(stop)) and CTX.prove(ge0(n - stop))):
                        raise Unsupported("strided slice bounds")
                    q, r = divide(stop - a + st - 1, st)
                    # ceil((stop-a)/st)
                    if not CTX.prove(band(ge0(r), ge0(st - 1 - r))):
                        raise Unsupported("strided slice")
                    spaces.append(Atm(q))
                    plan.append(("map", len(spaces) - 1, lambda c, sp=sp, a=a, st=st: sp.decode(a + lift(c) * st)))
                    ax += 1
                    continue
                raise Unsupported("slice step")
            if k.start is None and k.stop is None:
                s2, m = sp, (lambda c: c)
            else:
                a, ln = _slice_bounds(k, sp.size())
                s2, m = _slice_space(sp, a, ln)
            spaces.append(s2)
            plan.append(("map", len(spaces) - 1, m))
            ax += 1
        elif _is_arr(k):
            view = False
            t = _idx_tensor(k)
            if t.kind == "bool":
                if t.ndim != 1:
                    raise Unsupported("2-d boolean mask")
                if not sizes_equal(t.spaces[0], sp):
                    raise IndexError("boolean index did not match")
                if builtins.sum(1 for kk in key if _is_arr(kk)) > 1:
                    raise Unsupported("boolean mask mixed with index arrays")
                base = _pick(t.spaces[0], sp)
                snap = t._snap()
                ts = t.spaces[0]
                spaces.append(Filt(base, lambda c, snap=snap, base=base, ts=ts: tob(snap(conv(c, base, ts)))))
                plan.append(("map", len(spaces) - 1, lambda c, base=base, sp=sp: conv(c, base, sp)))
            else:
                n = sp.size()
                neg = _check_bounds(t, n, "read")
                advs.append((t, t._snap(), neg, n, sp))
                plan.append(("adv", len(advs) - 1))
                if len(advs) == 1:
                    spaces.append("ADV")
            ax += 1
        else:
            if isinstance(k, T):
                k = k.el()
            if isinstance(k, B):
                raise Unsupported("boolean scalar index")
            if isinstance(k, float):
                raise IndexError("only integers are valid indices")
            n = sp.size()
            i = _norm_idx(k, n)
            ok = band(ge0(i), ge0(n - 1 - i))
            if not CTX.prove(ok) and not bool(ok):
                raise IndexError(f"index {k} is out of bounds for axis with size {n}")
            plan.append(("fix", sp, i))
            ax += 1
    if advs:
        bsp = broadcast_spaces([a[0] for a in advs])
        pos = spaces.index("ADV")
        spaces[pos:pos + 1] = bsp
        na = len(bsp)
        # scalar ints between/with arrays broadcast too, which does not move axes if adjacent
        apos = [i for i, p in enumerate(plan) if p[0] == "adv"]
        if apos[-1] - apos[0] + 1 != len(apos):
            raise Unsupported("non-adjacent index arrays")

        def shift(j):
            return j if j < pos else j + na - 1

        plan = [("map", shift(p[1]), p[2]) if p[0] == "map" else p for p in plan]
    snap = x._snap()

    def f(*c):
        out = []
        for p in plan:
            if p[0] == "new":
                continue
            if p[0] == "map":
                out.append(p[2](c[p[1]]))
            elif p[0] == "fix":
                out.append(p[1].decode(p[2]))
            else:
                t, s, neg, n, sp = advs[p[1]]
                e = lift(bget(t, s, bsp, c[pos:pos + na]))
                out.append(sp.decode(e + n if neg is True or neg and bool(e < 0) else e))
        return snap(*out)

    if not spaces:
        v = f()
        return _scalar(v)
    r = T(spaces, f, x.kind, x.buf if view else None)
    if view and not builtins.any(k is None or isinstance(k, T) or isinstance(k, slice) and (
            k.step not in (None, 1) or isinstance(k.start, T) or isinstance(k.stop, T)) for k in key):
        key = tuple(key)
        r.view_of(x, lambda b: getitem(b, key), lambda b, t: setitem(b, key, t))
        r.viewkey = key0
    return r


def _scalar(v):
    if isinstance(v, P) and v.sort == "int":
        return _pyint(v)
    if isinstance(v, B) and v.kind == "const":
        return v.val
    return v


class _NoSol(Exception):
    pass


def solve_index(vs, e, target):
    """Solve e(vs) == target for vs: returns (env, residual condition) or raises Unsupported."""
    eqs = [e - target]
    env = {}
    res = []
    todo = {vid(v): n for v, n in vs}
    guard = 0
    while eqs:
        guard += 1
        if guard > 60:
            raise Unsupported("cannot invert an index map")
        p = subst(eqs.pop(0), env)
        if not (p.fv & todo.keys()):
            res.append(eq(p, const(0)))
            continue
        sp = split_eq(p, [(apoly(ATOMS[i]), n) for i, n in todo.items()])
        if sp is not None:
            eqs = sp + eqs
            continue
        for i in list(p.fv & todo.keys()):
            v = apoly(ATOMS[i])
            co = _poly_in(p, v)
            if co is None or set(co) - {0, 1} or not co[1].is_const() or co[1].const() not in (1, -1):
                continue
            sol = -co.get(0, const(0)) * co[1].const()
            n = todo.pop(i)
            env = {k: subst(x, {i: sol}) for k, x in env.items()}
            env[i] = sol
            res.append(("range", sol, n))
            break
        else:
            raise Unsupported(f"cannot invert the index map {e} = {target}")
    cond = TRUE
    for r in res:
        if isinstance(r, tuple):
            _, sol, n = r
            sol = subst(sol, env)
            n = subst(n, env)
            cond = band(cond, ge0(sol), ge0(n - 1 - sol))
        else:
            cond = band(cond, r)
    if todo:
        return env, cond, todo
    return env, cond, None


def setitem(x, key, val):
    if not x._fresh():
        raise Unsupported("write through a stale view")
    if isinstance(val, T) and val.origin and val.origin[0] is x and val.viewkey is key and val._fresh():
        return                          # x[key] op= v: the view was written in place already
    old = x._fn
    if isinstance(key, T) and key.kind == "bool" and key.ndim == x.ndim:
        v = asT(val)
        if v.ndim:
            raise Unsupported("masked assignment of an array")
        ks = key._snap()
        vv = v._snap()()
        sps = x.spaces

        def f(*c):
            cc = [conv(a, s, t) for a, s, t in zip(c, sps, key.spaces)]
            return _cast(vv, x.kind) if bool(tob(ks(*cc))) else old(*c)
        _commit(x, f)
        return
    key = _expand_key(x, key)
    v = asT(val)
    if v is None:
        raise Unsupported(f"assignment of {type(val)}")
    if x.kind == "int" and v.kind == "real":
        raise Unsupported("silent float-to-int truncation on assignment")
    vs_ = v._snap()
    plan = []
    rspaces = []
    nadv = 0
    for ax, k in enumerate(key):
        if k is None:
            raise Unsupported("newaxis in assignment")
        sp = x.spaces[ax]
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("strided assignment")
            if k.start is None and k.stop is None:
                plan.append(("all", len(rspaces)))
                rspaces.append(sp)
            else:
                a, ln = _slice_bounds(k, sp.size())
                plan.append(("rng", len(rspaces), a, ln, sp))
                rspaces.append(Atm(ln))
        elif _is_arr(k):
            nadv += 1
            t = _idx_tensor(k)
            if t.kind == "bool":
                snap = t._snap()
                ts = t.spaces[0]
                if v.ndim:
                    raise Unsupported("masked assignment of an array")
                plan.append(("mask", len(rspaces), snap, ts, sp))
                rspaces.append(Filt(ts, lambda c, snap=snap: tob(snap(c))))
            else:
                n = sp.size()
                neg = _check_bounds(t, n, "write")
                plan.append(("idx", len(rspaces), t, t._snap(), neg, n, sp, t.ndim))
                rspaces.extend(t.spaces)
        else:
            if isinstance(k, T):
                k = k.el()
            n = sp.size()
            i = _norm_idx(k, n)
            ok = band(ge0(i), ge0(n - 1 - i))
            if not CTX.prove(ok) and not bool(ok):
                raise IndexError(f"index {k} is out of bounds for axis with size {n}")
            plan.append(("fix", i, sp))
    if nadv > 1:
        raise Unsupported("assignment with several index arrays")
    from lumver import rt
    if rt.LOOPS and x.buf.born < rt.LOOPS[-1].birth <= x.viewed:
        raise Unsupported("outer array modified inside a symbolic loop through a view made there")
    if rt.LOOPS and x.buf.born < rt.LOOPS[-1].birth and not rspaces and not v.ndim:
        # an outer array written inside a loop of symbolic length
        rt.LOOPS[-1].events.append((x, "set", ([], [p[1] for p in plan], _cast(v.el(), x.kind))))
        return
    if (rt.LOOPS and x.buf.born < rt.LOOPS[-1].birth and builtins.all(p[0] in ("fix", "idx") for p in plan)
            and v.ndim <= len(rspaces)):
        # the same through one index array: all its entries
        p = next(p for p in plan if p[0] == "idx")
        alts = [([], (), TRUE)]
        for s in p[2].spaces:
            alts = [(vs + v2, cc + (c2,), band(b, b2)) for vs, cc, b in alts for v2, c2, b2 in s.binders()]
        if len(alts) == 1 and alts[0][2].kind == "const" and not p[4]:
            bvs, cc, _ = alts[0]
            with CTX.local_vars(bvs):
                e = lift(p[3](*cc))
                val = _cast(bget(v, vs_, rspaces, cc), x.kind)
            rt.LOOPS[-1].events.append((x, "set", (bvs, [e if q[0] == "idx" else q[1] for q in plan], val)))
            return
    # value broadcast against the selected shape
    if v.ndim > len(rspaces):
        raise ShapeError("could not broadcast input array")
    for s, t in zip(rspaces[len(rspaces) - v.ndim:], v.spaces):
        if isinstance(s, Filt):
            continue
        if not is_one(t) and not sizes_equal(s, t):
            raise ShapeError(f"could not broadcast input array from {v.spaces} into {rspaces}")
    sps = x.spaces
    kind = x.kind

    def f(*c):
        rc = [None] * len(rspaces)
        pend = None
        for p, cx, sp in zip(plan, c, sps):
            if p[0] == "all":
                rc[p[1]] = cx
            elif p[0] == "fix":
                if not bool(eq(sp.lin(cx), p[1])):
                    return old(*c)
            elif p[0] == "rng":
                i = sp.lin(cx) - p[2]
                if not bool(band(ge0(i), ge0(p[3] - 1 - i))):
                    return old(*c)
                rc[p[1]] = i
            elif p[0] == "mask":
                cc = conv(cx, sp, p[3])
                if not bool(tob(p[2](cc))):
                    return old(*c)
                rc[p[1]] = cc
            else:
                pend = (p, cx, sp)
        if pend is not None:
            p, cx, sp = pend
            _, pos, t, snap, neg, n, _, tnd = p
            target = sp.lin(cx)
            alts = [([], (), TRUE)]
            for s in t.spaces:
                alts = [(vs + v2, cc + (c2,), band(b, b2)) for vs, cc, b in alts for v2, c2, b2 in s.binders()]
            hit = None
            for bvs, cc, b in reversed(alts):
                if b.kind != "const":
                    raise Unsupported("assignment through a masked index array")
                with CTX.local_vars(bvs):
                    e = lift(snap(*cc))
                    if neg:
                        e = e + n
                env, cond, left = solve_index(bvs, e, target)
                if bool(cond):
                    if left and v.ndim:
                        raise Unsupported("assignment with repeated indices")
                    hit = [_csub(y, env) for y in cc]
                    break
            if hit is None:
                return old(*c)
            rc[pos:pos + tnd] = hit
        return _cast(bget(v, vs_, rspaces, rc), kind)

    _commit(x, f)


def _csub(c, env):
    if isinstance(c, P):
        return subst(c, env)
    if isinstance(c, tuple):
        return tuple(_csub(y, env) for y in c)
    return c


def _commit(x, f):
    x._write(f)


# --------------------------------------------------------------------- reductions
def sum(x, axis=None, **kw):
    if not isinstance(x, T):
        if not symbolic(x):
            return _np.sum(x, axis=axis, **kw)
        x = asT(x)
    if axis is None:
        return tsum(x)
    axes = [axis] if isinstance(axis, int) else list(axis)
    axes = [a % x.ndim for a in axes]
    keep = [i for i in range(x.ndim) if i not in axes]
    snap = x._snap()

    def f(*c):
        alts = [([], {}, TRUE)]
        for a in axes:
            alts = [(vs + v2, {**d, a: c2}, band(b, b2)) for vs, d, b in alts
                    for v2, c2, b2 in x.spaces[a].binders()]
        tot = const(0)
        for vs, d, b in alts:
            cc = []
            it = iter(c)
            for i in range(x.ndim):
                cc.append(d[i] if i in d else next(it))
            tot = tot + split_sum(vs, lambda cc=cc, b=b: lift(snap(*cc)) * iverson(b))
        return tot

    if not keep:
        return _scalar(f())
    return T([x.spaces[i] for i in keep], f, "int" if x.kind in ("int", "bool") else "real")


def mean(x, axis=None, **kw):
    x = asT(x)
    n = x.size if axis is None else x.shape[axis]
    return sum(x, axis=axis) / n


def prod(x, axis=None, **kw):
    if isinstance(x, (list, tuple)):
        r = const(1)
        for y in x:
            r = r * lift(y)
        return _pyint(r)
    x = asT(x)
    n = x.size
    if isinstance(n, int) and x.ndim == 1:
        r = const(1)
        for i in range(n):
            r = r * lift(x.at(i))
        return _pyint(r)
    raise Unsupported("prod of a symbolic-size array")


def cumsum(x, axis=None, **kw):
    x = asT(x)
    if x.ndim != 1:
        raise Unsupported("cumsum of n-d array")
    s = x.spaces[0]
    snap = x._snap()
    n = s.size()

    def f(c):
        k = s.lin(c)
        v = fresh("b")
        if k.is_const():
            t = const(0)
            for i in range(int(k.const()) + 1):
                t = t + lift(snap(s.decode(const(i))))
            return t
        return split_sum([(v, k + 1)], lambda: lift(snap(s.decode(v))))

    return T([s], f, x.kind)


def diff(x, n=1, axis=-1, **kw):
    x = asT(x)
    if n != 1:
        return diff(diff(x, n - 1, axis), 1, axis)
    axis %= x.ndim
    a = [slice(None)] * x.ndim
    b = [slice(None)] * x.ndim
    a[axis] = slice(1, None)
    b[axis] = slice(None, -1)
    return getitem(x, tuple(a)) - getitem(x, tuple(b))


def gradient(f, x=1, axis=None, edge_order=1):
    """Differences along a vector: second order inside, one-sided at the ends (two entries at least)."""
    f = asT(f)._frozen()
    if f.ndim != 1 or edge_order != 1:
        raise Unsupported("gradient other than of a vector with one-sided differences at the ends")
    n = f.spaces[0].size()
    CTX.require("gradient: at least two entries", CTX.prove(ge0(n - 2)))
    x = asT(x)._frozen()
    if x.ndim == 0:
        at = lambda k: x.el() * k
    else:
        CTX.require_eq("gradient: one coordinate per entry", x.spaces[0].size(), n)
        at = lambda k: lift(x.at(k))

    def g(c):
        k = lift(f.spaces[0].lin(c))
        v = lambda j: as_real(lift(f.at(j)))
        if bool(eq(k, const(0))):
            return (v(const(1)) - v(const(0))) / (at(const(1)) - at(const(0)))
        if bool(eq(k, n - 1)):
            return (v(n - 1) - v(n - 2)) / (at(n - 1) - at(n - 2))
        a, b = at(k) - at(k - 1), at(k + 1) - at(k)
        return (a * a * v(k + 1) + (b * b - a * a) * v(k) - b * b * v(k - 1)) / (a * b * (a + b))
    return T(f.spaces, g, "real")


def all(x, axis=None, **kw):
    """Universal quantification: decided as a proof obligation-style condition."""
    x = asT(x)
    if x.ndim == 0:
        return tob(x.el())
    if axis is not None:
        raise Unsupported("all with an axis")
    return quant(x, True)


def any(x, axis=None, **kw):
    x = asT(x)
    if x.ndim == 0:
        return tob(x.el())
    return bnot(quant(elementwise(lambda a: bnot(tob(a)), [x], "bool"), True))


def quant(x, universal):
    alts = [([], (), TRUE)]
    for s in x.spaces:
        alts = [(vs + v2, c + (c2,), band(b, b2)) for vs, c, b in alts for v2, c2, b2 in s.binders()]
    opaque = []
    for vs, c, b in alts:
        with CTX.local_vars(vs):
            for cond, val in local_cases(lambda c=c: tob(x.el(*c))):
                with CTX.assuming(band(cond, b)):
                    if CTX.prove(val):
                        continue
                    opaque.append((vs, band(cond, b), val))
    if not opaque:
        return TRUE
    out = TRUE
    for vs, cond, val in opaque:
        # SUM of violations == 0  (canonical), i.e. the universally quantified condition
        if not vs:
            out = band(out, bor(bnot(cond), val))
            continue
        with CTX.local_vars(vs):
            if CTX.prove(bnot(val)) and cond.kind == "const" and not val.fv & {vid(v) for v, _ in vs}:
                sz = const(1)
                for _, n in vs:
                    sz = sz * n
                out = band(out, eq(sz, const(0)))
                continue
        s = SUM(vs, iverson(band(cond, bnot(val))))
        out = band(out, QUANT(s, vs, cond, val))
    return out


def QUANT(s, vs, cond, val):
    from lumver.terms import eq0
    q = eq0(s)
    if q.kind == "eq0":
        CTX.quants[q.key] = (vs, cond, val)
    return q


def max(x, axis=None, **kw):
    x = asT(x)
    if x.ndim == 1 and isinstance(x.size, int):
        r = x.at(0)
        for i in range(1, x.size):
            y = x.at(i)
            r = y if bool(lift(y) > r) else r
        return r
    raise Unsupported("max of a symbolic array")


def min(x, axis=None, **kw):
    return -max(-asT(x), axis)


amax, amin = max, min


# ------------------------------------------------------------------- linear algebra
def einsum(spec, *ops, **kw):
    ops = [asT(o) for o in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = [c for c in ins if c.isalpha()]
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    if "..." in spec:
        if "->" not in spec:
            out = "..." + out
        free = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in spec]
        nd = [o.ndim - len(i.replace("...", "")) if "..." in i else 0 for i, o in zip(ins, ops)]
        most = builtins.max(nd)
        ins = [i.replace("...", "".join(free[most - k:most])) for i, k in zip(ins, nd)]
        out = out.replace("...", "".join(free[:most]))
    if len(ins) != len(ops):
        raise ValueError("einsum operand count")
    space = {}
    for i, o in zip(ins, ops):
        if len(i) != o.ndim:
            raise ValueError("einstein sum subscripts string contains too many subscripts for operand")
        for ch, s in zip(i, o.spaces):
            if ch in space and space[ch] is not s:
                if is_one(space[ch]):
                    space[ch] = s
                elif is_one(s):
                    pass
                elif not sizes_equal(space[ch], s):
                    raise ShapeError("einsum operand has a mismatched dimension")
                else:
                    space[ch] = _pick(space[ch], s)
            else:
                space[ch] = s
    contr = [c for c in space if c not in out]
    snaps = [o._snap() for o in ops]

    def f(*c):
        base = dict(zip(out, c))
        alts = [([], dict(base), TRUE)]
        for ch in contr:
            alts = [(vs + v2, {**d, ch: c2}, band(b, b2)) for vs, d, b in alts
                    for v2, c2, b2 in space[ch].binders()]
        tot = const(0)
        for vs, d, b in alts:
            def body(d=d, b=b):
                r = iverson(b)
                for i, o, s in zip(ins, ops, snaps):
                    cc = []
                    for ch, osp in zip(i, o.spaces):
                        if is_one(osp) and not is_one(space[ch]):
                            cc.append(osp.decode(const(0)))
                        else:
                            cc.append(conv(d[ch], space[ch], osp))
                    r = r * lift(s(*cc))
                return r
            tot = tot + split_sum(vs, body)
        return tot

    k = "int" if builtins.all(o.kind in ("int", "bool") for o in ops) else "real"
    if not out:
        return f()
    return T([space[ch] for ch in out], f, k)


def matmul(a, b):
    a, b = asT(a), asT(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim == 1 and b.ndim == 1:
        return einsum("i,i->", a, b)
    if a.ndim == 1:
        l = "abcdefg"[:b.ndim - 2]
        return einsum(f"i,{l}ij->{l}j", a, b)
    if b.ndim == 1:
        l = "abcdefg"[:a.ndim - 2]
        return einsum(f"{l}ij,j->{l}i", a, b)
    l = "abcdefg"
    na, nb = a.ndim - 2, b.ndim - 2
    n = builtins.max(na, nb)
    la, lb, lo = l[n - na:n], l[n - nb:n], l[:n]
    return einsum(f"{la}ij,{lb}jk->{lo}ik", a, b)


def dot(a, b):
    a, b = asT(a), asT(b)
    if a.ndim == 0 or b.ndim == 0:
        r = a * b
        return r
    if a.ndim <= 2 and b.ndim <= 2:
        return matmul(a, b)
    raise Unsupported("dot of n-d arrays")


def inner(a, b):
    return einsum("i,i->", a, b)


def cross(a, b, **kw):
    a, b = asT(a), asT(b)
    if kw or a.ndim != 1 or b.ndim != 1 or not builtins.all(lift(t.spaces[0].size()).same(const(3)) for t in (a, b)):
        raise Unsupported("np.cross other than of two 3-vectors")
    x, y = [[lift(t.at(i)) for i in range(3)] for t in (a, b)]
    return array([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]])


def vdot(a, b):
    return inner(a, b)


def outer(a, b):
    return einsum("i,j->ij", ravel(a), ravel(b))


def tensordot(a, b, axes=2):
    a, b = asT(a), asT(b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = [[k] if isinstance(k, int) else list(k) for k in axes]
    ax, bx = [k % a.ndim for k in ax], [k % b.ndim for k in bx]
    la = [chr(97 + k) for k in range(a.ndim)]
    lb = [chr(97 + a.ndim + k) for k in range(b.ndim)]
    for i, j in zip(ax, bx):
        lb[j] = la[i]
    out = [c for k, c in enumerate(la) if k not in ax] + [c for k, c in enumerate(lb) if k not in bx]
    return einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), a, b)


def kron(a, b):
    a, b = asT(a), asT(b)
    if a.ndim != b.ndim or a.ndim not in (1, 2):
        raise Unsupported("kron of these ranks")
    if a.ndim == 1:
        return ravel(einsum("i,j->ij", a, b))
    r = einsum("ij,kl->ikjl", a, b)
    n = [shape(a)[k] * shape(b)[k] for k in (0, 1)]
    return reshape(r, tuple(n))


def diag(x, k=0):
    x = asT(x)
    if k:
        raise Unsupported("an off diagonal")
    if x.ndim == 2:
        return diagonal(x)
    n = shape(x)[0]
    return expand_dims(x, 1) * eye(n)


def diagonal(x):
    x = asT(x)
    n, m = shape(x)
    if not sizes_equal(x.spaces[0], x.spaces[1]):
        raise Unsupported("diagonal of a rectangle")
    k = arange(n)
    return getitem(x, (k, k))


def trace(x):
    return sum(diagonal(x))


def ediff1d(x):
    return diff(ravel(x))


def broadcast_arrays(*xs):
    xs = [asT(x) for x in xs]
    zero = xs[0] * 0
    for x in xs[1:]:
        zero = zero + x * 0
    return [x + zero for x in xs]


class _R:
    """numpy.r_ of arrays, scalars and ranges."""

    def __init__(self, real):
        self.real = real

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        sl = [v for k in key if isinstance(k, slice) for v in (k.start, k.stop, k.step)]
        if not builtins.any(symbolic(k) for k in key if not isinstance(k, slice)) and not builtins.any(
                symbolic(v) for v in sl):
            return self.real[key]
        parts = []
        for k in key:
            if isinstance(k, slice):
                k = arange(0 if k.start is None else k.start, k.stop, 1 if k.step is None else k.step)
            parts.append(atleast_1d(k))
        return concatenate(parts)


# ------------------------------------------------------------------------- others
def nonzero(x):
    x = asT(x)
    # nonzero of an everywhere-nonzero array: all index tuples in C order
    sp = _factors(x)
    v = None
    cases = []
    for vs, c, b in sp.binders():
        with CTX.local_vars(vs):
            cc = _split_coord(x, c)
            for cond, val in local_cases(lambda cc=cc: bnot(eq(lift(x.el(*cc)), const(0)))):
                with CTX.assuming(cond):
                    cases.append(CTX.prove(val))
    if builtins.all(cases):
        dom = sp
    else:
        snap = x._snap()
        dom = Filt(sp, lambda c: bnot(eq(lift(snap(*_split_coord(x, c))), const(0))))
    return tuple(
        T([dom], lambda c, i=i: x.spaces[i].lin(_split_coord(x, c)[i]), "int") for i in range(x.ndim))


def _split_coord(x, c):
    if x.ndim == 1:
        return (c,)
    out = []
    k = 0
    for s in x.spaces:
        n = len(s.fs) if isinstance(s, Prod) else 1
        out.append(tuple(c[k:k + n]) if isinstance(s, Prod) else c[k])
        k += n
    return tuple(out)


def flatnonzero(x):
    return nonzero(ravel(asT(x)))[0]


def where(cond, a=None, b=None):
    if a is None:
        return nonzero(cond)
    c = asT(cond)
    return elementwise(lambda p, x, y: x if bool(tob(p)) else y, [c, asT(a), asT(b)],
                       _kinds([asT(a), asT(b)])) if c.ndim or asT(a).ndim or asT(b).ndim else (
        a if bool(tob(c.el())) else b)


def triu_indices(n, k=0, m=None):
    n = lift(n)
    sp = Prod(Atm(n), Atm(n))
    f = Filt(sp, lambda c: ge0(lift(c[1]) - lift(c[0]) - k))
    return (T([f], lambda c: lift(c[0]), "int"), T([f], lambda c: lift(c[1]), "int"))


def indices(dims, **kw):
    sps = [Atm(d) for d in dims]
    return stack([T(sps, lambda *c, i=i: lift(c[i]), "int") for i in range(len(sps))])


def meshgrid(a, b, indexing="xy"):
    a, b = asT(a), asT(b)
    if indexing == "xy":
        return [broadcast_to(a, (b.shape[0], a.shape[0])), transpose(broadcast_to(b, (a.shape[0], b.shape[0])))]
    return [transpose(broadcast_to(a, (b.shape[0], a.shape[0]))), broadcast_to(b, (a.shape[0], b.shape[0]))]


def isscalar(x):
    if isinstance(x, P):
        return True
    if isinstance(x, B):
        return True
    if isinstance(x, T):
        return False
    return _np.isscalar(x)


def shape(x):
    return x.shape if hasattr(x, "shape") else asT(x).shape


def ndim(x):
    return asT(x).ndim


def size(x):
    return asT(x).size


def array_equal(a, b):
    a, b = asT(a), asT(b)
    if a.ndim != b.ndim:
        return False
    return all(a == b)


def allclose(*a, **k):
    raise Unsupported("allclose on symbolic values")


def in1d(a, b):
    return isin(a, b)


def contains(t, x):
    """The condition under which the value x is an element of the array t."""
    t = ravel(asT(t))
    x = lift(x)
    c = bor()
    sp = t.spaces[0]
    for vs, q, b in sp.binders():
        with contextlib.ExitStack() as st:
            st.enter_context(CTX.local_vars(vs))
            e = lift(t.el(q))
        env, cond, left = solve_index(vs, e, x)
        if left:
            raise Unsupported("membership in an array")
        c = bor(c, band(cond, bsubst(tob(b), env)))
    return c


def isin(a, b, assume_unique=False, invert=False, **kw):
    b = asT(b)
    f = (lambda v: bnot(contains(b, v))) if invert else (lambda v: contains(b, v))
    if isinstance(a, P):
        return f(a)
    return elementwise(f, [asT(a)], "bool")


def roll(x, shift, axis=None):
    x = asT(x)
    if x.ndim != 1:
        raise Unsupported("roll n-d")
    n = x.spaces[0].size()
    return concatenate([x[n - shift:], x[:n - shift]])


def flip(x, axis=None):
    x = asT(x)
    if axis is None:
        return getitem(x, tuple([slice(None, None, -1)] * x.ndim))
    k = [slice(None)] * x.ndim
    k[axis] = slice(None, None, -1)
    return getitem(x, tuple(k))


def take(x, idx, axis=None):
    x = asT(x)
    if axis is None:
        return getitem(ravel(x), (idx,))
    key = [slice(None)] * x.ndim
    key[axis] = idx
    return getitem(x, tuple(key))


def delete(x, idx, axis=None):
    raise Unsupported("np.delete on symbolic arrays")


def _unary(name):
    def f(x, **kw):
        if isinstance(x, P):
            return tfn(name, x)
        return elementwise(lambda a: tfn(name, a), [asT(x)], "real")
    return f


sin, cos, tan, arctan, tanh, exp, log, log10, sqrt, arccos, arcsin, sinh, cosh = [
    _unary(n) for n in ("sin", "cos", "tan", "arctan", "tanh", "exp", "log", "log10", "sqrt", "arccos", "arcsin",
                        "sinh", "cosh")]
BRANCH_MINMAX = True        # False: min(a, b) = (a + b - |a - b|) / 2 instead of a case split


def abs(x, **kw):
    return builtins.abs(lift(x)) if not isinstance(x, T) else builtins.abs(x)


absolute = fabs = abs


def hypot(x, y, **kw):
    return sqrt(x * x + y * y)


def sign(x):
    if isinstance(x, P):
        return tfn("sign", x)
    return elementwise(lambda a: tfn("sign", a), [asT(x)])


def square(x):
    return x * x


def power(a, b):
    return a ** b


def maximum(a, b):
    if not BRANCH_MINMAX:
        f = lambda x, y: (as_real(lift(x)) + y + tfn("abs", lift(x) - lift(y))) / 2
    else:
        f = lambda x, y: x if bool(lift(x) >= lift(y)) else y
    r = elementwise(f, [asT(a), asT(b)])
    return r if r.ndim else r.el()


def minimum(a, b):
    if not BRANCH_MINMAX:
        f = lambda x, y: (as_real(lift(x)) + y - tfn("abs", lift(x) - lift(y))) / 2
    else:
        f = lambda x, y: x if bool(lift(x) <= lift(y)) else y
    r = elementwise(f, [asT(a), asT(b)])
    return r if r.ndim else r.el()


def clip(x, lo, hi):
    return minimum(maximum(x, lo), hi)


def arctan2(a, b):
    r = elementwise(lambda y, x: tfn("arctan2", as_real(lift(y)), as_real(lift(x))), [asT(a), asT(b)], "real")
    return r if r.ndim else r.el()


def add(a, b):
    return a + b


def subtract(a, b):
    return a - b


def multiply(a, b):
    return a * b


def divide_(a, b):
    return asT(a) / b


true_divide = divide_


def negative(a):
    return -a


def logical_not(x):
    return elementwise(lambda a: bnot(tob(a)), [asT(x)], "bool")


def logical_and(a, b):
    return elementwise(lambda x, y: band(tob(x), tob(y)), [asT(a), asT(b)], "bool")


def logical_or(a, b):
    return elementwise(lambda x, y: bor(tob(x), tob(y)), [asT(a), asT(b)], "bool")


def less_equal(a, b):
    return asT(a) <= b


def greater(a, b):
    return asT(a) > b


def equal(a, b):
    return asT(a) == b


def ascontiguousarray(x, **kw):
    return asT(x)


def count_nonzero(x):
    x = asT(x)
    return tsum(x, lambda v, *c: iverson(bnot(eq(lift(v), const(0))) if not isinstance(v, B) else v))


def isnan(x):
    return full_like(x, False, bool)


def isfinite(x):
    return full_like(x, True, bool)


# ------------------------------------------------------------------ module proxy
_SELF = globals()
_EXTRA = {"divide": divide_}


class NumpyProxy:
    """Stands for `numpy` in the verified modules."""

    def __init__(self, real):
        self.__dict__["_real"] = real
        self.__dict__["_memo"] = {}

    def __getattr__(self, name):
        memo = self.__dict__["_memo"]
        if name in memo:
            return memo[name]
        real = getattr(self.__dict__["_real"], name)
        if isinstance(real, type) or not callable(real):
            if name == "r_":
                real = _R(real)
            if not callable(real) and isinstance(real, type(_np)):
                real = NumpyProxy(real)
            memo[name] = real
            return real
        mine = _EXTRA.get(name) or (_SELF.get(name) if callable(_SELF.get(name)) and not name.startswith("_")
                                    and getattr(_SELF.get(name), "__module__", "") == __name__ else None)
        if self.__dict__["_real"].__name__ not in ("numpy", "jax.numpy"):
            mine = None

        def dispatch(*a, **k):
            if builtins.any(symbolic(v) for v in a) or builtins.any(symbolic(v) for v in k.values()):
                if mine is None:
                    if _all_object(a, k):
                        return real(*a, **k)
                    raise Unsupported(f"numpy.{name} on symbolic arguments")
                if _all_object(a, k) and name not in ("array", "asarray"):
                    return real(*a, **k)
                return mine(*a, **k)
            r = real(*a, **k)
            if name in ("ones", "zeros", "empty", "full") and r.dtype == float and r.size <= 64:
                return r.astype(object)         # may receive symbolic entries later
            return r

        dispatch.__name__ = name
        if isinstance(real, _np.ufunc):
            def outer_of(a, b, **k):
                if symbolic(a) or symbolic(b):
                    a, b = asT(a), asT(b)
                    for _ in range(b.ndim):
                        a = expand_dims(a, a.ndim)
                    return dispatch(a, b)
                return real.outer(a, b, **k)

            def no(how):
                def f(*a, **k):
                    if builtins.any(symbolic(v) for v in a):
                        raise Unsupported(f"numpy.{name}.{how} on symbolic arguments")
                    return getattr(real, how)(*a, **k)
                return f
            dispatch.outer = outer_of
            dispatch.at, dispatch.accumulate = no("at"), no("accumulate")
            dispatch.reduce = sum if name == "add" else no("reduce")
            if name == "add":
                dispatch.accumulate = cumsum
        memo[name] = dispatch
        return dispatch


def _all_object(a, k):
    """Only concrete-shape object arrays / scalars: numpy's own object loops apply."""
    def has_T(v, d=3):
        if isinstance(v, T) or is_symseq(v):
            return True
        if isinstance(v, P) and v.sort == "int":
            return True
        if isinstance(v, (list, tuple)) and d:
            return builtins.any(has_T(y, d - 1) for y in v)
        if isinstance(v, slice):
            return True
        return False
    def has_obj(v, d=3):
        if is_symseq(v):
            return False
        if isinstance(v, _np.ndarray) and v.dtype == object:
            return True
        if isinstance(v, (list, tuple)) and d:
            return builtins.any(has_obj(y, d - 1) for y in v)
        return False
    vals = list(a) + list(k.values())
    return builtins.any(has_obj(v) for v in vals) and not builtins.any(has_T(v) for v in vals)

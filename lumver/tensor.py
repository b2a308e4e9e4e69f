"""Symbolic tensors: index spaces of symbolic size and lazily evaluated elements."""
import builtins
import numpy as _np

from lumver.terms import (P, B, CTX, SUM, TRUE, FALSE, Unsupported, apoly, as_real, band, bnot, bor,
                          bsubst, const, divide, eq, fresh, ge0, iverson, lift, read, split_eq,
                          subst, sym, tob, vid, _divmod, _poly_in, ATOMS, single_atom)


# ------------------------------------------------------------------ index spaces
class Space:
    def same(self, o):
        return False


class Atm(Space):
    def __init__(self, n):
        self.n = lift(n)

    def size(self):
        return self.n

    def lin(self, c):
        return lift(c)

    def decode(self, p):
        return lift(p)

    def binders(self):
        v = fresh("b")
        return [([(v, self.n)], v, TRUE)]

    def same(self, o):
        return isinstance(o, Atm) and CTX.is_zero(o.n - self.n)

    def __repr__(self):
        return f"{self.n}"


class Prod(Space):
    def __init__(self, *fs):
        out = []
        for f in fs:
            out.extend(f.fs if isinstance(f, Prod) else [f])
        self.fs = out

    def size(self):
        r = const(1)
        for f in self.fs:
            r = r * f.size()
        return r

    def lin(self, c):
        r = const(0)
        for f, x in zip(self.fs, c):
            r = r * f.size() + f.lin(x)
        return r

    def decode(self, p):
        out = []
        p = lift(p)
        for f in reversed(self.fs[1:]):
            s = f.size()
            if s.is_const() and s.const() == 1:
                out.append(f.decode(const(0)))
                continue
            try:
                q, r = euclid(p, s)
            except Unsupported:
                q, r = _divmod(p, s)
            out.append(f.decode(r))
            p = q
        out.append(self.fs[0].decode(p))
        return tuple(reversed(out))

    def binders(self):
        alts = [([], (), TRUE)]
        for f in self.fs:
            alts = [(vs + v2, c + (c2,), band(b, b2)) for vs, c, b in alts
                    for v2, c2, b2 in f.binders()]
        return alts

    def same(self, o):
        return isinstance(o, Prod) and len(o.fs) == len(self.fs) and all(
            a.same(b) for a, b in zip(self.fs, o.fs))

    def __repr__(self):
        return "(" + "*".join(map(repr, self.fs)) + ")"


class Cat(Space):
    def __init__(self, parts):
        out = []
        for p in parts:
            out.append(p)
        self.parts = out

    def size(self):
        r = const(0)
        for p in self.parts:
            r = r + p.size()
        return r

    def offset(self, i):
        r = const(0)
        for p in self.parts[:i]:
            r = r + p.size()
        return r

    def lin(self, c):
        i, x = c
        return self.offset(i) + self.parts[i].lin(x)

    def decode(self, p):
        p = lift(p)
        off = const(0)
        live = [i for i, q in enumerate(self.parts)]
        for i, q in enumerate(self.parts):
            n = q.size()
            last = all(CTX.is_zero(r.size()) for r in self.parts[i + 1:])
            if last or bool(p < off + n):
                return (i, q.decode(p - off))
            off = off + n
        raise Unsupported("Cat.decode out of range")

    def binders(self):
        out = []
        for i, q in enumerate(self.parts):
            for vs, c, b in q.binders():
                out.append((vs, (i, c), b))
        return out

    def same(self, o):
        return isinstance(o, Cat) and len(o.parts) == len(self.parts) and all(
            a.same(b) for a, b in zip(self.parts, o.parts))

    def __repr__(self):
        return "[" + " ++ ".join(map(repr, self.parts)) + "]"


class DSum(Space):
    """Concatenation over k < n of spaces sp(k)."""

    def __init__(self, n, sp):
        self.n = lift(n)
        self.sp = sp

    def size(self):
        v = fresh("b")
        with CTX.local_vars([(v, self.n)]):
            s = self.sp(v).size()
        return SUM([(v, self.n)], s)

    def offset(self, k):
        v = fresh("b")
        with CTX.local_vars([(v, k)]):
            s = self.sp(v).size()
        return SUM([(v, k)], s)

    def lin(self, c):
        k, x = c
        return self.offset(k) + self.sp(k).lin(x)

    def decode(self, p):
        p = lift(p)
        v = fresh("b")
        s = self.sp(v).size()
        if vid(v) not in s.fv:
            q, r = euclid(p, s)
            return (q, self.sp(q).decode(r))
        # p = offset(k) + i : recognise the prefix-sum atom
        for m, c in p.d.items():
            if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "sum":
                vs, body = ATOMS[m[0][0]].meta
                k = vs[0][1]
                if len(vs) == 1:
                    rest = p - self.offset(k)
                    if CTX.prove(band(ge0(rest), ge0(self.sp(k).size() - 1 - rest), ge0(k), ge0(self.n - 1 - k))):
                        return (k, self.sp(k).decode(rest))
        if CTX.prove(ge0(p)) and CTX.prove(ge0(self.sp(const(0)).size() - 1 - p)):
            return (const(0), self.sp(const(0)).decode(p))
        raise Unsupported(f"cannot locate index {p} in a concatenation of {self.n} parts")

    def binders(self):
        v = fresh("b")
        return [([(v, self.n)] + vs, (v, c), b) for vs, c, b in self.sp(v).binders()]

    def same(self, o):
        if not isinstance(o, DSum) or not CTX.is_zero(o.n - self.n):
            return False
        v = fresh("b")
        with CTX.local_vars([(v, self.n)]):
            return self.sp(v).same(o.sp(v))

    def __repr__(self):
        return f"DSUM({self.n})"


class Filt(Space):
    """The elements of base satisfying pred, in order."""

    def __init__(self, base, pred):
        self.base = base
        self.pred = pred

    def size(self):
        tot = const(0)
        for vs, c, b in self.base.binders():
            tot = tot + split_sum(vs, lambda: iverson(band(b, tob(self.pred(c)))))
        return tot

    def lin(self, c):
        raise Unsupported("rank of an element selected by a boolean mask")

    decode = lin

    def binders(self):
        return [(vs, c, band(b, tob(self.pred(c)))) for vs, c, b in self.base.binders()]

    def same(self, o):
        if not isinstance(o, Filt) or not self.base.same(o.base):
            return False
        for vs, c, b in self.base.binders():
            with CTX.local_vars(vs):
                p, q = tob(self.pred(c)), tob(o.pred(c))
                if p.key != q.key and not CTX.prove(bor(band(p, q), band(bnot(p), bnot(q)))):
                    return False
        return True

    def __repr__(self):
        return f"FILTER({self.base})"


def euclid(p, s):
    """q, r with p = q*s + r and 0 <= r < s (proved)."""
    q, r = divide(p, s)
    if q is None:
        raise Unsupported(f"cannot divide {p} by {s}")
    for dq in (0, -1, 1):
        r2 = r - dq * s
        if CTX.prove(band(ge0(r2), ge0(s - 1 - r2))):
            return q + dq, r2
    # a term of r may itself hold a multiple of s through a boundary: case split
    for cond, dq in ((ge0(r - s), 1), (ge0(-r - 1), -1)):
        if not CTX.prove(bnot(cond)):
            if CTX.decide(cond):
                r2 = r - dq * s
                if CTX.prove(band(ge0(r2), ge0(s - 1 - r2))):
                    return q + dq, r2
            elif CTX.prove(band(ge0(r), ge0(s - 1 - r))):
                return q, r
    raise Unsupported(f"cannot locate {p} in rows of {s} (remainder {r})")


class LocalEx:
    """Explore the branches of conditions met while evaluating an element expression."""

    def __init__(self):
        self.pending = [[]]
        self.decisions = []
        self.pos = 0
        self.conds = []

    def decide(self, b):
        if CTX.prove(b):
            return True
        if CTX.prove(bnot(b)):
            return False
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos]
        else:
            v = True
            self.pending.append(self.decisions + [False])
            self.decisions.append(True)
            if len(self.pending) > 300:
                raise Unsupported("too many local cases")
        self.pos += 1
        c = b if v else bnot(b)
        self.conds.append(c)
        CTX.assume(c)
        return v


def local_cases(f):
    """[(condition, value)] over all branches f takes."""
    ex = LocalEx()
    out = []
    from lumver.ctx import Infeasible
    while ex.pending:
        ex.decisions = ex.pending.pop()
        ex.pos = 0
        ex.conds = []
        CTX.local.append(ex)
        try:
            with CTX.assuming():
                v = f()
            out.append((band(*ex.conds), v))
        except Infeasible:
            pass
        finally:
            CTX.local.pop()
    return out


def split_sum(vs, f):
    """sum over vs of f() where f may branch on the bound variables."""
    with CTX.local_vars(vs):
        cases = local_cases(f)
    tot = const(0)
    for c, v in cases:
        v = lift(v)
        tot = tot + SUM(vs, v * iverson(c) if c.kind != "const" else v)
    return tot


# ----------------------------------------------------------------------- tensors
LOOPS = []         # the symbolic loops being executed (lumver.rt)


class Buf:
    __slots__ = ("ver", "name", "born", "made", "stamp")
    clock = 0

    def __init__(self, name=None):
        from lumver import rt
        self.ver = 0
        self.name = name
        self.born = rt._BIRTH
        Buf.clock += 1
        self.made = self.stamp = Buf.clock

    def wrote(self):
        self.ver += 1
        Buf.clock += 1
        self.stamp = Buf.clock

    def check_write(self):
        from lumver import rt
        if rt.LOOPS and self.born < rt.LOOPS[-1].birth:
            raise Unsupported("outer array modified inside a symbolic loop")


class T:
    """Symbolic n-d array.  fn maps one coordinate per axis to an element."""
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, spaces, fn, dtype="real", buf=None):
        self.spaces = tuple(s if isinstance(s, Space) else Atm(s) for s in spaces)
        self._fn = fn
        self.kind = dtype
        self.buf = buf or Buf()
        self.ver = self.buf.ver
        self.origin = None
        self.viewed = -1
        self.viewkey = None

    def view_of(self, base, get, put):
        """This array is the view get(base) of base; put(base, content) writes it back."""
        if self.buf is base.buf:
            from lumver import rt
            self.origin = (base, get, put)
            self.viewed = rt._BIRTH
        return self

    def _fresh(self):
        """Bring a view up to date with the array it is a view of."""
        if self.ver == self.buf.ver:
            return True
        if self.origin is None or not self.origin[0]._fresh():
            return False
        r = self.origin[1](self.origin[0])
        if not isinstance(r, T) or r.buf is not self.buf or len(r.spaces) != len(self.spaces):
            return False
        self.spaces, self._fn, self.ver = r.spaces, r._fn, self.buf.ver
        return True

    def _write(self, f):
        """Replace the content; through a view, that of the array it is a view of."""
        if self.origin is None:
            self.buf.check_write()
            self.buf.wrote()
        else:
            base, _, put = self.origin
            put(base, T(self.spaces, f, self.kind))
        self._fn = f
        self.ver = self.buf.ver

    # numpy look-alike -------------------------------------------------------
    @property
    def shape(self):
        return tuple(_pyint(s.size()) for s in self.spaces)

    @property
    def ndim(self):
        return len(self.spaces)

    @property
    def size(self):
        r = const(1)
        for s in self.spaces:
            r = r * s.size()
        return _pyint(r)

    @property
    def dtype(self):
        return _np.dtype({"int": int, "real": float, "bool": bool}.get(self.kind, object))

    @property
    def T(self):
        f = self._snap()
        sp = tuple(reversed(self.spaces))
        r = T(sp, lambda *c: f(*reversed(c)), self.kind, self.buf)
        return r.view_of(self, lambda b: b.T, lambda b, t: b._write(t.T._fn))

    def el(self, *c):
        if not self._fresh():
            raise Unsupported("read through a view after its base array was modified")
        for lp in LOOPS:
            lp.reads.add(self.buf)
        return self._fn(*c)

    def at(self, *lins):
        """Element at plain integer indices."""
        return self.el(*[s.decode(lift(i)) for s, i in zip(self.spaces, lins)])

    def __len__(self):
        n = self.spaces[0].size()
        if n.is_const():
            return int(n.const())
        raise Unsupported("len() of a symbolic-size array in uninstrumented code")

    def __iter__(self):
        n = self.spaces[0].size()
        if n.is_const():
            return iter([self[i] for i in range(int(n.const()))])
        raise Unsupported("iteration over a symbolic-size array")

    def __bool__(self):
        if self.ndim == 0:
            return bool(tob(self.el()))
        n = self.size
        if n == 1:
            return bool(tob(self.at(*[0] * self.ndim)))
        raise ValueError("truth value of an array is ambiguous")

    def __float__(self):
        raise Unsupported("float() of symbolic array")

    def __repr__(self):
        return f"T{self.spaces}"

    def _np(self):
        from lumver import symnp
        return symnp

    def reshape(self, *shape, order="C"):
        return self._np().reshape(self, shape[0] if len(shape) == 1 else shape, order=order)

    def ravel(self, order="C"):
        return self._np().ravel(self, order)

    def flatten(self, order="C"):
        r = self._np().ravel(self, order)
        return T(r.spaces, r._fn, r.kind)

    def copy(self):
        fn = self._snap()
        return T(self.spaces, fn, self.kind)

    def _frozen(self):
        """A view of the present contents, which can no longer be read once the base changes."""
        return T(self.spaces, self._snap(), self.kind, self.buf)

    def _snap(self):
        for lp in LOOPS:
            lp.reads.add(self.buf)
        if not self._fresh():
            raise Unsupported("read through a view after its base array was modified")
        return self._fn

    def astype(self, dt, *a, **k):
        if dt in (int, "int", _np.int32, _np.int64, "int32", "int64"):
            if self.kind == "bool":
                f = self._snap()
                return T(self.spaces, lambda *c: iverson(tob(f(*c))), "int")
            if self.kind != "int":
                raise Unsupported("float to int conversion of a symbolic array")
            return self.copy()
        if dt in (bool, "bool"):
            f = self._snap()
            return T(self.spaces, lambda *c: tob(f(*c)), "bool")
        f = self._snap()
        return T(self.spaces, lambda *c: as_real(lift(f(*c))), "real")

    def transpose(self, *axes):
        return self._np().transpose(self, axes[0] if len(axes) == 1 and not isinstance(axes[0], int) else (axes or None))

    def swapaxes(self, a, b):
        return self._np().swapaxes(self, a, b)

    def squeeze(self, axis=None):
        return self._np().squeeze(self, axis)

    def sum(self, axis=None, **k):
        return self._np().sum(self, axis=axis, **k)

    def mean(self, axis=None):
        return self._np().mean(self, axis=axis)

    def dot(self, o):
        return self._np().dot(self, o)

    def repeat(self, n, axis=None):
        return self._np().repeat(self, n, axis)

    def cumsum(self, axis=None):
        return self._np().cumsum(self, axis)

    def all(self):
        return self._np().all(self)

    def any(self):
        return self._np().any(self)

    def nonzero(self):
        return self._np().nonzero(self)

    def item(self):
        return self.at(*[0] * self.ndim)

    def toarray(self):
        return self

    def tolist(self):
        return self._np().aslist(self)

    def fill(self, v):
        self[...] = v

    def conj(self):
        return self

    # arithmetic -------------------------------------------------------------
    def _b(self, o, f, rev=False, kind=None):
        sn = self._np()
        o2 = sn.asT(o)
        if o2 is None:
            return NotImplemented
        return sn.elementwise(f, [o2, self] if rev else [self, o2], kind)

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._b(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._b(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        return self._b(o, lambda a, b: lift(a) / b, kind="real")

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: lift(a) / b, True, kind="real")

    def __floordiv__(self, o):
        return self._b(o, lambda a, b: a // b)

    def __mod__(self, o):
        return self._b(o, lambda a, b: a % b)

    def __pow__(self, o):
        return self._b(o, lambda a, b: lift(a) ** (b if not isinstance(b, P) or not b.is_const() else b.const()))

    def __neg__(self):
        return self._np().elementwise(lambda a: -a, [self])

    def __pos__(self):
        return self

    def __abs__(self):
        return self._np().elementwise(lambda a: abs(lift(a)), [self])

    def __invert__(self):
        return self._np().elementwise(lambda a: bnot(tob(a)), [self], "bool")

    def __and__(self, o):
        return self._b(o, lambda a, b: band(tob(a), tob(b)), kind="bool")

    __rand__ = __and__

    def __or__(self, o):
        return self._b(o, lambda a, b: bor(tob(a), tob(b)), kind="bool")

    __ror__ = __or__

    def __eq__(self, o):
        return self._b(o, lambda a, b: _cmp(a, b, "eq"), kind="bool")

    def __ne__(self, o):
        return self._b(o, lambda a, b: bnot(_cmp(a, b, "eq")), kind="bool")

    def __le__(self, o):
        return self._b(o, lambda a, b: _cmp(a, b, "le"), kind="bool")

    def __ge__(self, o):
        return self._b(o, lambda a, b: _cmp(b, a, "le"), kind="bool")

    def __lt__(self, o):
        return self._b(o, lambda a, b: bnot(_cmp(b, a, "le")), kind="bool")

    def __gt__(self, o):
        return self._b(o, lambda a, b: bnot(_cmp(a, b, "le")), kind="bool")

    __hash__ = None

    def __matmul__(self, o):
        return self._np().matmul(self, o)

    def __rmatmul__(self, o):
        return self._np().matmul(o, self)

    def _inplace(self, r):
        if not isinstance(r, T):
            return r
        if len(r.spaces) != len(self.spaces):
            raise ValueError("non-broadcastable output operand")
        if self.kind == "int" and r.kind == "real":
            raise TypeError("Cannot cast ufunc output from float64 to int64")
        # elementwise update of the whole array: same memory, new content
        sp, f, rs = self.spaces, r._fn, r.spaces
        self._write(lambda *c: f(*[conv(x, a, b) for x, a, b in zip(c, sp, rs)]))
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    # indexing ---------------------------------------------------------------
    def __getitem__(self, key):
        return self._np().getitem(self, key)

    def __setitem__(self, key, val):
        self._np().setitem(self, key, val)


def _cmp(a, b, op):
    a, b = lift(a), lift(b)
    if op == "eq":
        return eq(a, b)
    from lumver.terms import le
    return le(a, b)


def _pyint(p):
    if isinstance(p, P) and p.is_const() and isinstance(p.const(), int):
        return p.const()
    return p


def conv(c, frm, to):
    """Coordinate conversion between two spaces of equal size."""
    if frm is to or (type(frm) is type(to) and frm.same(to)):
        return c
    if isinstance(frm, Filt) and isinstance(to, Atm):
        raise Unsupported("boolean-mask coordinate")
    return to.decode(frm.lin(c))


def vec(name, space, kind="real"):
    """Opaque input array."""
    sp = space if isinstance(space, Space) else Atm(space)
    return T((sp,), lambda c: read(name, [sp.lin(c)], kind), kind, Buf(name))


def arr(name, *spaces, kind="real"):
    sps = [s if isinstance(s, Space) else Atm(s) for s in spaces]
    return T(sps, lambda *c: read(name, [s.lin(x) for s, x in zip(sps, c)], kind), kind, Buf(name))


def tsum(t, f=lambda x, *c: x):
    """sum over all elements."""
    alts = [([], (), TRUE)]
    for s in t.spaces:
        alts = [(vs + v2, c + (c2,), band(b, b2)) for vs, c, b in alts for v2, c2, b2 in s.binders()]
    tot = const(0)
    for vs, c, b in alts:
        tot = tot + split_sum(vs, lambda c=c, b=b: lift(f(t.el(*c), *c)) * iverson(b))
    return tot


def any_coord(space, name="i"):
    """A fresh universally quantified coordinate of the space (forks over parts)."""
    if isinstance(space, Atm):
        if space.n.is_const() and space.n.const() <= 12:
            return const(CTX.choose(int(space.n.const()))) if space.n.const() > 0 else _empty()
        if not CTX.prove(ge0(space.n - 1)):
            CTX.assume(ge0(space.n - 1))
        return CTX.index(name, space.n)
    if isinstance(space, Prod):
        return tuple(any_coord(f, name) for f in space.fs)
    if isinstance(space, Cat):
        i = CTX.choose(len(space.parts))
        return (i, any_coord(space.parts[i], name))
    if isinstance(space, DSum):
        k = CTX.index(name, space.n)
        return (k, any_coord(space.sp(k), name))
    if isinstance(space, Filt):
        c = any_coord(space.base, name)
        CTX.assume(tob(space.pred(c)))
        return c
    raise Unsupported("any_coord")


def _empty():
    from lumver.ctx import Infeasible
    raise Infeasible()

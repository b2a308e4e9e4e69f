"""Exact term language of the verifier.

P   : (multivariate Laurent) polynomial with rational coefficients over interned
      atoms; sort 'int' or 'real'.  Two equal normal forms are equal for every value
      of every symbol, so equality of normal forms is a proof.
B   : condition (comparison of P's or boolean combination).

Atoms:  sym   a free symbol
        read  element of an opaque array / opaque function applied to P's
        fn    interpreted or uninterpreted unary/binary real function
        inv   1/q for a primitive multi-term polynomial q
        sum   canonical finite sum  SUM_{v1<n1,..} monomial
        iv    Iverson bracket of a condition (0/1 valued)
"""
from fractions import Fraction
import itertools
import math
import operator
import time


class Unsupported(Exception):
    """The engine cannot represent this construct: the obligation stays undecided."""


class ProofAbort(Exception):
    pass


ATOMS = []
_INTERN = {}


class Atom:
    __slots__ = ("id", "kind", "args", "sort", "fv", "name", "meta")

    def __repr__(self):
        return atom_str(self)


def intern(kind, args, sort, fv, name=None, meta=None):
    key = (kind, args, sort)
    a = _INTERN.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind = kind
        a.args = args
        a.sort = sort
        a.name = name
        a.meta = meta
        ATOMS.append(a)
        if fv is None:
            fv = frozenset((a.id,))
        a.fv = fv
        _INTERN[key] = a
    return a


def _num(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        ne = d.get(a, 0) + e
        if ne:
            d[a] = ne
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def _with_array(op, p, a):
    """p op a for a numpy array a: an object array stays one, a numeric one becomes a tensor."""
    import numpy as np
    if not isinstance(a, np.ndarray):
        return NotImplemented
    if a.dtype == object:
        r = np.empty(a.shape, object)
        for i in np.ndindex(a.shape):
            r[i] = op(p, a[i])
        return r
    from lumver.symnp import asT
    return op(asT(p), asT(a))


class P:
    __slots__ = ("d", "sort", "_key", "_fv")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, d, sort):
        self.d = d
        self.sort = sort
        self._key = None
        self._fv = None

    # -- basic ---------------------------------------------------------------
    @property
    def key(self):
        if self._key is None:
            self._key = (tuple(sorted(self.d.items())), self.sort == "int")
        return self._key

    def __hash__(self):
        return hash(self.key)

    def same(self, o):
        return self.d == o.d

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.d:
                for a, _ in m:
                    s |= ATOMS[a].fv
            self._fv = frozenset(s)
        return self._fv

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), 0)

    def __repr__(self):
        return pstr(self)

    # -- numpy scalar look-alike ---------------------------------------------
    shape = ()
    ndim = 0

    @property
    def T(self):
        return self

    def ravel(self):
        from lumver import symnp
        return symnp.ravel(self)

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def dtype(self):
        import numpy
        return numpy.dtype(int) if self.sort == "int" else numpy.dtype(float)

    # -- arithmetic ----------------------------------------------------------
    def _bin(self, o):
        if isinstance(o, P):
            return o
        return lift(o)

    def __add__(self, o):
        o, a = self._bin(o), o
        if o is None:
            return _with_array(operator.add, self, a)
        if len(self.d) < len(o.d):
            a, b = o.d, self.d
        else:
            a, b = self.d, o.d
        r = dict(a)
        for m, c in b.items():
            s = r.get(m, 0) + c
            if s == 0:
                r.pop(m, None)
            else:
                r[m] = s
        return P(r, _sort(self, o))

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.d.items()}, self.sort)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o, a = self._bin(o), o
        if o is None:
            return _with_array(operator.sub, self, a)
        return self + (-o)

    def __rsub__(self, o):
        o, a = self._bin(o), o
        if o is None:
            return _with_array(lambda x, y: operator.sub(y, x), self, a)
        return o + (-self)

    def __mul__(self, o):
        o, a = self._bin(o), o
        if o is None:
            return _with_array(operator.mul, self, a)
        r = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                c = c1 * c2
                m = _mono_mul(m1, m2)
                fix = _needs_fix(m)
                if fix:
                    for mm, cc in _fix_mono(m).d.items():
                        s = r.get(mm, 0) + cc * c
                        if s == 0:
                            r.pop(mm, None)
                        else:
                            r[mm] = s
                    continue
                s = r.get(m, 0) + c
                if s == 0:
                    r.pop(m, None)
                else:
                    r[m] = s
        return P({m: _num(c) for m, c in r.items()}, _sort(self, o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o, a = self._bin(o), o
        if o is None:
            return _with_array(operator.truediv, self, a)
        return as_real(self) * inverse(o)

    def __rtruediv__(self, o):
        o, a = self._bin(o), o
        if o is None:
            return _with_array(lambda x, y: operator.truediv(y, x), self, a)
        return as_real(o) * inverse(self)

    def __floordiv__(self, o):
        return int_floordiv(self, o)

    def __rfloordiv__(self, o):
        return int_floordiv(lift(o), self)

    def __mod__(self, o):
        return int_mod(self, o)

    def __rmod__(self, o):
        return int_mod(lift(o), self)

    def __pow__(self, e):
        if isinstance(e, P):
            if e.is_const():
                e = e.const()
            else:
                return fn("pow", self, e)
        if isinstance(e, float):
            e = Fraction(e)
        e = _num(Fraction(e)) if isinstance(e, Fraction) else e
        if isinstance(e, Fraction):
            if e == Fraction(1, 2):
                return fn("sqrt", self)
            if e.denominator == 2:
                return fn("sqrt", self) ** (e.numerator)
            return fn("pow", self, const(e))
        e = int(e)
        if e < 0:
            return inverse(self ** (-e))
        if e == 0:
            return const(1, self.sort)
        r = self
        for _ in range(e - 1):
            r = r * self
        return r

    def __rpow__(self, b):
        return fn("pow", lift(b), self)

    def __abs__(self):
        return fn("abs", self)

    # numpy object-array ufunc fall-backs
    def sin(self):
        return fn("sin", self)

    def cos(self):
        return fn("cos", self)

    def tan(self):
        return fn("tan", self)

    def arctan(self):
        return fn("arctan", self)

    def tanh(self):
        return fn("tanh", self)

    def exp(self):
        return fn("exp", self)

    def log(self):
        return fn("log", self)

    def log10(self):
        return fn("log10", self)

    def sqrt(self):
        return fn("sqrt", self)

    def sign(self):
        return fn("sign", self)

    def arctan2(self, o):
        return fn("arctan2", self, lift(o))

    def conjugate(self):
        return self

    # -- comparison ----------------------------------------------------------
    def __eq__(self, o):
        o = self._bin(o)
        if o is None:
            return False
        return eq(self, o)

    def __ne__(self, o):
        o = self._bin(o)
        if o is None:
            return True
        return ~eq(self, o)

    def __le__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return le(self, o)

    def __ge__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return le(o, self)

    def __lt__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return lt(self, o)

    def __gt__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return lt(o, self)

    def __bool__(self):
        return bool(~eq(self, const(0, self.sort)))

    def __index__(self):
        if self.is_const():
            c = self.const()
            if isinstance(c, int):
                return c
        raise Unsupported(f"symbolic integer {self} used where CPython needs a concrete index")

    def __int__(self):
        if self.is_const():
            return int(self.const())
        raise Unsupported(f"int() of symbolic {self}")

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported(f"float() of symbolic {self}")

    def __format__(self, spec):
        return pstr(self)


def _sort(a, b):
    return "int" if a.sort == "int" and b.sort == "int" else "real"


def const(c, sort=None):
    c = _num(c) if isinstance(c, Fraction) else c
    if sort is None:
        sort = "int" if isinstance(c, int) else "real"
    return P({(): c} if c != 0 else {}, sort)


def as_real(p):
    return p if p.sort == "real" else P(p.d, "real")


def lift(x):
    """Lift a concrete number to a constant P; None when not a number."""
    import numpy as np
    if isinstance(x, P):
        return x
    if isinstance(x, B):
        return iverson(x)
    if isinstance(x, bool) or isinstance(x, np.bool_):
        return const(int(x))
    if isinstance(x, (int, np.integer)):
        return const(int(x))
    if isinstance(x, Fraction):
        return const(x, "real")
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isinf(x):
            return INF if x > 0 else -INF
        if math.isnan(x):
            return NAN
        if IDEAL_FLOATS:
            return _ideal(x)
        return const(Fraction(x), "real")
    if isinstance(x, np.ndarray) and x.shape == ():
        return lift(x[()])
    return None


IDEAL_FLOATS = False        # True: a float literal stands for the simple number it rounds (0.1, 1/3, pi/2, ...)
_IDEAL = {}


def _ideal(x):
    r = _IDEAL.get(x)
    if r is None:
        f = Fraction(x).limit_denominator(10 ** 7)
        if float(f) == x:
            r = const(f, "real")
        else:
            for e in (1, -1):
                f = Fraction(x / math.pi ** e).limit_denominator(1000)
                if f and abs(float(f) * math.pi ** e - x) <= 4e-16 * abs(x):
                    r = P({((single_atom(PI).id, e),): _num(f)}, "real")
                    break
            else:
                r = const(Fraction(x), "real")
        _IDEAL[x] = r
    return r


def sym(name, sort="real"):
    a = intern("sym", (name,), sort, None, name)
    return P({((a.id, 1),): 1}, sort)


_fresh = itertools.count()


def fresh(name, sort="int"):
    return sym(f"{name}!{next(_fresh)}", sort)


INF = sym("inf", "real")
NAN = sym("nan", "real")
PI = sym("pi", "real")


def apoly(a):
    return P({((a.id, 1),): 1}, a.sort)


def read(name, idx, sort="real", meta=None):
    idx = tuple(lift(i) for i in idx)
    idx = tuple(const(int(i.const())) if i.sort != "int" and i.is_const() and i.const() == int(i.const()) else i for i in idx)
    fv = frozenset().union(*[i.fv for i in idx]) if idx else frozenset()
    a = intern("read", (name, tuple(i.key for i in idx)), sort, fv, name, (idx, meta))
    return apoly(a)


def single_atom(p):
    """The atom if p is exactly one atom, else None."""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    return None


# ---------------------------------------------------------------- normal form
_ODD = {"sin", "tan", "arctan", "tanh", "sinh", "sign", "cbrt"}
_EVEN = {"cos", "abs", "cosh"}
_FNDEF0 = {"sin": 0, "tan": 0, "arctan": 0, "tanh": 0, "cos": 1, "exp": 1, "abs": 0,
           "sqrt": 0, "sign": 0}


def _leading_neg(p):
    m = min(p.d)
    return p.d[m] < 0


def fn(name, *args):
    args = tuple(as_real(lift(a)) for a in args)
    a0 = args[0]
    if len(args) == 1:
        if not a0.d and name in _FNDEF0:
            return const(_FNDEF0[name], "real")
        if name in _ODD and _leading_neg(a0):
            return -fn(name, -a0)
        if name in _EVEN and _leading_neg(a0):
            return fn(name, -a0)
        if name == "log" and a0.is_const() and a0.const() == 1:
            return const(0, "real")
        if name == "abs" and a0.is_const():
            return const(abs(a0.const()), "real")
        if name == "sign" and a0.is_const():
            return const((a0.const() > 0) - (a0.const() < 0), "real")
        if name == "sqrt" and a0.is_const():
            c = Fraction(a0.const())
            if c >= 0:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return const(Fraction(n, d), "real")
        if name == "tan":
            return fn("sin", a0) * inverse(fn("cos", a0))
        if name == "sin":
            t = single_atom(a0)
            if t is not None and t.kind == "fn" and t.name == "arctan":
                u = t.meta[0]
                return u * inverse(fn("sqrt", u * u + 1))
        if name in ("cos", "sin"):
            t = single_atom(a0)
            if t is not None and t.kind == "fn" and t.name == {"cos": "arccos", "sin": "arcsin"}[name]:
                return t.meta[0]
        if name == "cos":
            t = single_atom(a0)
            if t is not None and t.kind == "fn" and t.name == "arctan":
                u = t.meta[0]
                return inverse(fn("sqrt", u * u + 1))
    fv = frozenset().union(*[i.fv for i in args])
    a = intern("fn", (name, tuple(x.key for x in args)), "real", fv, name, args)
    return apoly(a)


def ufn(name, *args, sort="real"):
    """Uninterpreted function application."""
    return read(name, args, sort)


# monomials that must be rewritten: sin^2 -> 1-cos^2, sqrt^2 -> arg, iv^k -> iv
def _divmod(a, b):
    a, b = lift(a), lift(b)
    if a is None or b is None or a.sort != "int" or b.sort != "int":
        raise Unsupported("floor division of symbolic reals")
    if a.is_const() and b.is_const():
        q, r = divmod(a.const(), b.const())
        return const(q), const(r)
    if not CTX.prove(ge0(b - 1)):
        raise Unsupported("floor division by a possibly non-positive number")
    from lumver.tensor import euclid
    try:
        return euclid(a, b)
    except Unsupported:
        q = ufn("floordiv", a, b, sort="int")
        r = a - q * b
        CTX.assume(ge0(r))
        CTX.assume(ge0(b - 1 - r))
        return q, r


def int_floordiv(a, b):
    return _divmod(a, b)[0]


def int_mod(a, b):
    return _divmod(a, b)[1]


def _needs_fix(m):
    for a, e in m:
        at = ATOMS[a]
        if at.kind == "fn":
            if at.name == "sin" and e >= 2:
                return True
            if at.name == "sqrt" and (e >= 2 or e <= -1):
                return True
            if at.name == "sign" and e >= 3:
                return True
            if at.name == "abs" and e >= 2:
                return True
        elif at.kind == "iv" and e >= 2:
            return True
        elif at.kind == "inv":
            if e < 0:
                return True
    return False


def _fix_mono(m):
    r = const(1, "real")
    rest = []
    for a, e in m:
        at = ATOMS[a]
        if at.kind == "fn" and at.name == "sin" and e >= 2:
            c = fn("cos", at.meta[0])
            q, rem = divmod(e, 2)
            r = r * (1 - c * c) ** q
            if rem:
                rest.append((a, 1))
        elif at.kind == "fn" and at.name == "sqrt" and (e >= 2 or e <= -1):
            # sqrt(x)^2 = x (domain x >= 0 is assumed of every sqrt)
            q, rem = divmod(e, 2)
            r = r * (as_real(at.meta[0]) ** q)
            if rem:
                rest.append((a, 1))
        elif at.kind == "fn" and at.name == "abs" and e >= 2:
            q, rem = divmod(e, 2)
            r = r * (at.meta[0] ** (2 * q))
            if rem:
                rest.append((a, 1))
        elif at.kind == "fn" and at.name == "sign" and e >= 3:
            rest.append((a, 1 if e % 2 else 2))
        elif at.kind == "iv" and e >= 2:
            rest.append((a, 1))
        elif at.kind == "inv" and e < 0:
            r = r * (at.meta ** (-e))
        else:
            rest.append((a, e))
    return P({tuple(rest): 1}, "real") * r


def inverse(q):
    q = as_real(q)
    if not q.d:
        raise ZeroDivisionError("division by zero")
    if len(q.d) == 1:
        (m, c), = q.d.items()
        p = P({(): Fraction(1) / c}, "real")
        r = const(1, "real")
        for a, e in m:
            at = ATOMS[a]
            if at.kind == "inv":
                r = r * (at.meta ** e)
            elif at.kind == "fn" and at.name == "sqrt":
                # 1/sqrt(x) = sqrt(x)/x
                r = r * apoly(at) ** e * inverse(at.meta[0] ** e)
            else:
                r = r * P({((a, -e),): 1}, "real")
        return P({mm: _num(cc) for mm, cc in p.d.items()}, "real") * r
    # primitive part: pull out the common monomial and leading coefficient
    monos = list(q.d)
    common = dict(monos[0])
    for m in monos[1:]:
        d = dict(m)
        for a in list(common):
            e = min(common[a], d.get(a, 0)) if common[a] > 0 else min(common[a], d.get(a, 0))
            if e:
                common[a] = e
            else:
                common.pop(a)
        for a, e in d.items():
            if e < 0 and a not in common:
                common[a] = e
    # negative exponents present in some monomials only
    for m in monos:
        d = dict(m)
        for a, e in d.items():
            if e < 0:
                common[a] = min(common.get(a, 0), e)
    # fix up: an atom with min exponent over all monomials (missing = 0)
    common = {}
    alla = {a for m in monos for a, _ in m}
    for a in alla:
        if ATOMS[a].kind in ("iv", "sum"):
            continue
        if ATOMS[a].kind == "fn" and ATOMS[a].name in ("sqrt", "abs", "sign"):
            continue
        e = min(dict(m).get(a, 0) for m in monos)
        if e:
            common[a] = e
    cm = tuple(sorted(common.items()))
    inv_cm = tuple((a, -e) for a, e in cm)
    q2 = q * P({inv_cm: 1}, "real") if cm else q
    m0 = min(q2.d)
    lc = Fraction(q2.d[m0])
    q2 = P({m: _num(Fraction(c) / lc) for m, c in q2.d.items()}, "real")
    at = intern("inv", (q2.key,), "real", q2.fv, None, q2)
    r = apoly(at) * const(1 / lc, "real")
    if cm:
        r = r * inverse(P({cm: 1}, "real"))
    return r


def iverson(b):
    if b.kind == "const":
        return const(1 if b.val else 0)
    if b.kind == "not":
        return 1 - iverson(b.args[0])
    if b.kind == "and":
        r = const(1)
        for x in b.args:
            r = r * iverson(x)
        return r
    if b.kind == "or":
        r = const(1)
        for x in b.args:
            r = r * (1 - iverson(x))
        return 1 - r
    at = intern("iv", (b.key,), "int", b.fv, None, b)
    return apoly(at)


# ------------------------------------------------------------------ conditions
class B:
    """Symbolic condition.  kinds: const, ge0(P), eq0(P), not, and, or, pred."""
    __slots__ = ("kind", "args", "val", "_key", "_fv")
    __array_ufunc__ = None
    __array_priority__ = 1000
    shape = ()
    ndim = 0

    def __init__(self, kind, args=(), val=None):
        self.kind = kind
        self.args = args
        self.val = val
        self._key = None
        self._fv = None

    @property
    def key(self):
        if self._key is None:
            if self.kind == "const":
                self._key = ("const", self.val)
            else:
                self._key = (self.kind,) + tuple(
                    a.key if hasattr(a, "key") else a for a in self.args)
        return self._key

    def __hash__(self):
        return hash(self.key)

    @property
    def fv(self):
        if self._fv is None:
            s = frozenset()
            for a in self.args:
                if hasattr(a, "fv"):
                    s = s | a.fv
            self._fv = s
        return self._fv

    def __bool__(self):
        if self.kind == "const":
            return self.val
        return CTX.decide(self)

    def __invert__(self):
        return bnot(self)

    def __and__(self, o):
        o = tob(o)
        if o is None:
            return NotImplemented
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        o = tob(o)
        if o is None:
            return NotImplemented
        return bor(self, o)

    __ror__ = __or__

    def __repr__(self):
        return bstr(self)

    def __eq__(self, o):
        o = tob(o)
        if o is None:
            return False
        return (self & o) | (~self & ~o)

    def __mul__(self, o):
        return iverson(self) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return iverson(self) + o

    __radd__ = __add__

    def __rsub__(self, o):
        return o - iverson(self)

    def __sub__(self, o):
        return iverson(self) - o


TRUE = B("const", (), True)
FALSE = B("const", (), False)


def tob(x):
    import numpy as np
    if isinstance(x, B):
        return x
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, P):
        return ~eq(x, const(0))
    return None


def bnot(b):
    if b.kind == "const":
        return FALSE if b.val else TRUE
    if b.kind == "not":
        return b.args[0]
    if b.kind == "ge0" and b.args[0].sort == "int":
        return ge0(-b.args[0] - 1)
    if b.kind == "and":
        return bor(*[bnot(x) for x in b.args])
    if b.kind == "or":
        return band(*[bnot(x) for x in b.args])
    return B("not", (b,))


def band(*bs):
    out = []
    for b in bs:
        if b.kind == "const":
            if not b.val:
                return FALSE
            continue
        for x in (b.args if b.kind == "and" else (b,)):
            if all(x.key != y.key for y in out):
                out.append(x)
    for x in out:
        nk = bnot(x).key
        if any(y.key == nk for y in out):
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return B("and", tuple(sorted(out, key=lambda b: repr(b.key))))


def bor(*bs):
    out = []
    for b in bs:
        if b.kind == "const":
            if b.val:
                return TRUE
            continue
        for x in (b.args if b.kind == "or" else (b,)):
            if all(x.key != y.key for y in out):
                out.append(x)
    for x in out:
        nk = bnot(x).key
        if any(y.key == nk for y in out):
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return B("or", tuple(sorted(out, key=lambda b: repr(b.key))))


def _prim(p, allow_neg):
    """Divide by the (positive) content."""
    if not p.d:
        return p
    nums = [Fraction(c) for c in p.d.values()]
    g = 0
    l = 1
    for c in nums:
        l = l * c.denominator // math.gcd(l, c.denominator)
    for c in nums:
        g = math.gcd(g, int(c * l))
    f = Fraction(l, g)
    if allow_neg and Fraction(p.d[min(p.d)]) < 0:
        f = -f
    if f == 1:
        return p
    return P({m: _num(Fraction(c) * f) for m, c in p.d.items()}, p.sort)


def ge0(p):
    if p.is_const():
        return TRUE if p.const() >= 0 else FALSE
    if p.sort == "int":
        # divide by gcd of non-constant coefficients and floor the constant
        g = 0
        for m, c in p.d.items():
            if m:
                g = math.gcd(g, int(c))
        if g > 1:
            p = P({m: (c // g) for m, c in p.d.items() if not (m == () and c // g == 0)}, "int")
    else:
        p = _prim(p, False)
    return B("ge0", (p,))


def eq0(p):
    if p.is_const():
        return TRUE if p.const() == 0 else FALSE
    return B("eq0", (_prim(p, True),))


def _extended(p):
    """(sign of inf, finite part) or None: +-inf terms in an extended real."""
    ia = ((INFID, 1),)
    if ia in p.d:
        return (1 if p.d[ia] > 0 else -1)
    return 0


def eq(a, b):
    d = a - b
    if _extended(d):
        return FALSE
    return eq0(d)


def le(a, b):
    d = b - a
    e = _extended(d)
    if e:
        return TRUE if e > 0 else FALSE
    return ge0(d)


def lt(a, b):
    if a.sort == "int" and b.sort == "int":
        return ge0(b - a - 1)
    return bnot(le(b, a))


INFID = single_atom(INF).id


def pred(name, *args):
    return B("pred", (name,) + tuple(args))


# ------------------------------------------------------------------- printing
def atom_str(a):
    if a.kind == "sym":
        return a.name
    if a.kind == "read":
        return f"{a.name}[{', '.join(map(pstr, a.meta[0]))}]"
    if a.kind == "fn":
        return f"{a.name}({', '.join(map(pstr, a.meta))})"
    if a.kind == "inv":
        return f"1/({pstr(a.meta)})"
    if a.kind == "iv":
        return f"[{bstr(a.meta)}]"
    if a.kind == "sum":
        vs, body = a.meta
        return "SUM{" + ",".join(f"{v}<{pstr(n)}" for v, n in vs) + f"}}({pstr(body)})"
    return f"{a.kind}#{a.id}"


def pstr(p):
    if not isinstance(p, P):
        return str(p)
    if not p.d:
        return "0"
    out = []
    for m, c in sorted(p.d.items()):
        s = "*".join(atom_str(ATOMS[a]) + (f"^{e}" if e != 1 else "") for a, e in m)
        if isinstance(c, Fraction):
            c = float(c) if abs(c.denominator) > 10**6 else c
        if s:
            out.append(s if c == 1 else ("-" + s if c == -1 else f"{c}*{s}"))
        else:
            out.append(str(c))
        if sum(map(len, out)) > 1500:
            out.append("...")
            break
    return " + ".join(out).replace("+ -", "- ")


def bstr(b):
    if b.kind == "const":
        return str(b.val)
    if b.kind == "ge0":
        return f"{pstr(b.args[0])} >= 0"
    if b.kind == "eq0":
        return f"{pstr(b.args[0])} == 0"
    if b.kind == "not":
        return f"not({bstr(b.args[0])})"
    if b.kind == "pred":
        return f"{b.args[0]}({', '.join(map(str, b.args[1:]))})"
    return f"({f' {b.kind} '.join(map(bstr, b.args))})"


# --------------------------------------------------------------- substitution
def subst(p, env, memo=None):
    """Substitute symbols (atom id -> P) everywhere, renormalising."""
    if not isinstance(p, P):
        return p
    if not env or not (p.fv & env.keys()):
        return p
    if memo is None:
        memo = {}
    out = {}
    acc = None
    touched = []
    for m, c in p.d.items():
        if any(ATOMS[a].fv & env.keys() for a, _ in m):
            touched.append((m, c))
        else:
            out[m] = c
    res = P(out, p.sort)
    for m, c in touched:
        t = const(c, p.sort if isinstance(c, int) else "real")
        rest = []
        for a, e in m:
            at = ATOMS[a]
            if at.fv & env.keys():
                s = subst_atom(at, env, memo)
                t = t * (s ** e if e > 0 else inverse(s ** (-e)))
            else:
                rest.append((a, e))
        if rest:
            t = t * P({tuple(rest): 1}, "int" if all(ATOMS[a].sort == "int" and e > 0 for a, e in rest) else "real")
        res = res + t
    if p.sort == "real" and res.sort == "int":
        res = as_real(res)
    return res


def subst_atom(at, env, memo):
    r = memo.get(at.id)
    if r is not None:
        return r
    if at.kind == "sym":
        r = env[at.id]
    elif at.kind == "read":
        idx, meta = at.meta
        r = read(at.name, [subst(i, env, memo) for i in idx], at.sort, meta)
    elif at.kind == "fn":
        r = fn(at.name, *[subst(i, env, memo) for i in at.meta])
    elif at.kind == "inv":
        r = inverse(subst(at.meta, env, memo))
    elif at.kind == "iv":
        r = iverson(bsubst(at.meta, env, memo))
    elif at.kind == "sum":
        vs, body = at.meta
        nv = []
        e2 = dict(env)
        for v, n in vs:
            v2 = fresh("b")
            nv.append((v2, subst(n, e2)))
            e2[single_atom(v).id] = v2
        r = SUM(nv, subst(body, e2))
    else:
        raise Unsupported(at.kind)
    memo[at.id] = r
    return r


def replace_atoms(p, env):
    """Replace whole atoms (id -> P) at the top level of p."""
    if not any(a in env for m in p.d for a, _ in m):
        return p
    res = P({}, p.sort)
    for m, c in p.d.items():
        r = const(c, p.sort if isinstance(c, int) else "real")
        for a, e in m:
            s = env.get(a)
            if s is None:
                r = r * P({((a, e),): 1}, "int" if ATOMS[a].sort == "int" and e > 0 else "real")
            else:
                r = r * (s ** e if e > 0 else inverse(s ** (-e)))
        res = res + r
    return res


def bsubst(b, env, memo=None):
    if b.kind == "const" or not (b.fv & env.keys()):
        return b
    if b.kind == "ge0":
        return ge0(subst(b.args[0], env, memo))
    if b.kind == "eq0":
        return eq0(subst(b.args[0], env, memo))
    if b.kind == "not":
        return bnot(bsubst(b.args[0], env, memo))
    if b.kind == "and":
        return band(*[bsubst(x, env, memo) for x in b.args])
    if b.kind == "or":
        return bor(*[bsubst(x, env, memo) for x in b.args])
    if b.kind == "pred":
        return B("pred", (b.args[0],) + tuple(
            subst(x, env, memo) if isinstance(x, P) else x for x in b.args[1:]))
    raise Unsupported(b.kind)


def vid(v):
    return single_atom(v).id


def mp(m):
    """Monomial as a polynomial, with the sort its atoms give it."""
    return P({tuple(m): 1}, "int" if all(ATOMS[a].sort == "int" and e > 0 for a, e in m) else "real")


# ------------------------------------------------------------------------ sums
_CANON = {}


def canon_vars(k):
    """k canonical bound variables."""
    while len(_CANON) <= k:
        _CANON[len(_CANON)] = sym(f"#b{len(_CANON)}", "int")
    return [_CANON[i] for i in range(k)]


def SUM(vs, body):
    """Canonical  sum_{v in vs, 0 <= v < size} body.   vs: [(var P, size P)], outer first."""
    body = lift(body)
    vs = [(v, lift(n)) for v, n in vs]
    # expand small constant ranges
    for i, (v, n) in enumerate(vs):
        if n.is_const():
            n = int(n.const())
            if n <= 0:
                return const(0, body.sort)
            if n <= 12:
                tot = const(0, body.sort)
                for k in range(n):
                    e = {vid(v): const(k)}
                    tot = tot + SUM([(w, subst(nn, e)) for j, (w, nn) in enumerate(vs) if j != i],
                                    subst(body, e))
                return tot
    total = const(0, body.sort)
    for m, c in body.d.items():
        total = total + _sum_mono(vs, m) * const(c, None if isinstance(c, int) else "real")
    return total if total.sort == body.sort or body.sort == "int" else as_real(total)


def _poly_in(p, v):
    """coefficients of p as a polynomial in symbol v (dict exp->P) ; None if v occurs inside atoms."""
    i = vid(v)
    out = {}
    for m, c in p.d.items():
        e = 0
        rest = []
        for a, k in m:
            if a == i:
                e = k
            elif i in ATOMS[a].fv:
                return None
            else:
                rest.append((a, k))
        out.setdefault(e, {})[tuple(rest)] = c
    return {e: P(d, p.sort) for e, d in out.items()}


def _sum_mono(vs, m):
    """Sum over vs of the single monomial m."""
    if not vs:
        return mp(m)
    # merge nested sums appearing linearly
    for a, e in m:
        at = ATOMS[a]
        if at.kind == "sum" and e == 1 and (at.fv & {vid(v) for v, _ in vs}):
            ivs, ibody = at.meta
            env = {}
            nv = []
            for v, n in ivs:
                v2 = fresh("b")
                nv.append((v2, subst(n, env)))
                env[vid(v)] = v2
            ib = subst(ibody, env)
            rest = tuple((b, k) for b, k in m if b != a)
            return SUM(list(vs) + nv, mp(rest) * ib)
    ids = {vid(v): (v, n) for v, n in vs}
    # Iverson delta elimination:  [v - e == 0]
    for a, e in m:
        at = ATOMS[a]
        if at.kind == "iv" and at.meta.kind == "eq0" and (at.fv & ids.keys()):
            r = _try_delta(vs, m, a, at.meta.args[0])
            if r is not None:
                return r
        if at.kind == "iv" and at.meta.kind == "ge0" and (at.fv & ids.keys()):
            r = _try_range(vs, m, a, at.meta.args[0])
            if r is not None:
                return r
    # pull out factors independent of all bound vars
    inside, outside = [], []
    for a, e in m:
        (inside if ATOMS[a].fv & ids.keys() else outside).append((a, e))
    outp = mp(outside)
    # connected components of bound vars (through factors and through sizes)
    comps = []
    items = [(set(ATOMS[a].fv & ids.keys()), (a, e)) for a, e in inside]
    dep = {i: set(n.fv & ids.keys()) for i, (v, n) in ids.items()}
    parent = {i: i for i in ids}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x

    for s, _ in items:
        s = list(s)
        for x in s[1:]:
            parent[find(x)] = find(s[0])
    for i, ds in dep.items():
        for x in ds:
            parent[find(x)] = find(i)
    groups = {}
    for v, n in vs:
        groups.setdefault(find(vid(v)), []).append((v, n))
    res = outp
    for g, gvs in groups.items():
        gi = [(a, e) for s, (a, e) in items if s and find(next(iter(s))) == g]
        res = res * _sum_conn(gvs, tuple(sorted(gi)))
    return res


def _try_delta(vs, m, a, p):
    """factor [p == 0] in monomial m; eliminate a bound variable when p = +-v + e."""
    sp = split_eq(p, vs)
    if sp is not None:
        rest = tuple((b, k) for b, k in m if b != a)
        body = mp(rest)
        for q in sp:
            body = body * iverson(eq0(q))
        return SUM(vs, body)
    for v, n in reversed(vs):
        i = vid(v)
        co = _poly_in(p, v)
        if co is None or set(co) - {0, 1} or 1 not in co:
            continue
        c1 = co[1]
        if not (c1.is_const() and c1.const() in (1, -1)):
            continue
        e = co.get(0, const(0, "int"))
        sol = -e if c1.const() == 1 else e
        # sizes of other vars must not depend on v unless fine to substitute
        rest = tuple((b, k) for b, k in m if b != a)
        cond = band(ge0(sol), ge0(n - 1 - sol))
        # decide range membership under the bounds of the remaining variables
        others = [(w, nn) for w, nn in vs if vid(w) != i]
        with CTX.local_vars(others):
            ok = CTX.prove(cond)
            bad = (not ok) and (CTX.prove(bnot(band(ge0(sol)))) or CTX.prove(bnot(ge0(n - 1 - sol))))
        if bad:
            return const(0, "int")
        body = subst(mp(rest), {i: sol})
        others = [(w, subst(nn, {i: sol})) for w, nn in others]
        if not ok:
            body = body * iverson(cond)
        return SUM(others, body)
    return None


def _try_range(vs, m, a, p):
    """factor [p >= 0]: drop when decidable, else split the range of a bound var when p = +-v + e."""
    with CTX.local_vars(vs):
        if CTX.prove(ge0(p)):
            rest = tuple((b, k) for b, k in m if b != a)
            return SUM(vs, mp(rest))
        if CTX.prove(bnot(ge0(p))):
            return const(0)
    for v, n in reversed(vs):
        i = vid(v)
        co = _poly_in(p, v)
        if co is None or set(co) - {0, 1} or 1 not in co:
            continue
        c1 = co[1]
        if not (c1.is_const() and c1.const() in (1, -1)):
            continue
        e = co.get(0, const(0, "int"))
        rest = tuple((b, k) for b, k in m if b != a)
        others = [(w, nn) for w, nn in vs if vid(w) != i]
        if any(i in nn.fv for w, nn in vs):
            # sizes of inner variables depend on v: keep its place
            pos = [vid(w) for w, _ in vs].index(i)
            if e.fv & {vid(w) for w, _ in vs[pos + 1:]}:
                continue
            before, after = vs[:pos], vs[pos + 1:]
            lo = -e if c1.const() == 1 else e + 1
            with CTX.local_vars(before):
                if not (CTX.prove(ge0(lo)) and CTX.prove(ge0(n - lo))):
                    continue
            if c1.const() == 1:
                w = fresh("b")
                env = {i: lo + w}
                return SUM(before + [(w, n - lo)] + [(u, subst(nn, env)) for u, nn in after], subst(mp(rest), env))
            return SUM(before + [(v, lo)] + after, mp(rest))
        if c1.const() == 1:   # v >= -e
            lo = -e
            with CTX.local_vars(others):
                if not (CTX.prove(ge0(lo)) and CTX.prove(ge0(n - lo))):
                    continue
            # v = lo + w , w < n - lo
            w = fresh("b")
            return SUM(others + [(w, n - lo)], subst(mp(rest), {i: lo + w}))
        else:                 # v <= e
            with CTX.local_vars(others):
                if not (CTX.prove(ge0(e + 1)) and CTX.prove(ge0(n - 1 - e))):
                    continue
            return SUM(others + [(v, e + 1)], mp(rest))
    return None


def split_eq(p, vs=()):
    """p == 0 with p = c*(A) + R, |R| < c  ==>  [A, R].   None if no such split is found."""
    cands = []
    idsb = CTX.bounded_ids() | {vid(v) for v, _ in vs}
    seen = set()
    for i in p.fv:
        if i not in idsb:
            continue
        co = _poly_in(p, apoly(ATOMS[i]))
        if co is None or set(co) - {0, 1} or 1 not in co:
            continue
        c = co[1]
        if c.is_const() and abs(c.const()) == 1:
            continue
        for cc in (c, -c):
            if cc.key in seen:
                continue
            seen.add(cc.key)
            cands.append(cc)
    with CTX.local_vars(list(vs)):
        for c in cands:
            if not CTX.prove(ge0(c - 1)):
                continue
            q, r = divide(p, c)
            if q is None:
                continue
            if not q.d or not (q.fv):
                continue
            if CTX.prove(ge0(c - 1 - r)) and CTX.prove(ge0(c - 1 + r)):
                return [q, r]
    return None


def divide(p, c):
    """Polynomial division p = q*c + r choosing, for every symbol coefficient, full multiples of c."""
    if c.is_const():
        k = c.const()
        q = {}
        r = {}
        for m, co in p.d.items():
            if m == ():
                qq, rr = divmod(co, k)
                if qq:
                    q[m] = qq
                if rr:
                    r[m] = rr
            elif co % k == 0:
                q[m] = co // k
            else:
                r[m] = co
        return P(q, "int"), P(r, "int")
    # lead monomial of c in graded lexicographic order (so the remainder is unique)
    al = sorted({a for m in c.d for a, _ in m})
    lm = max(c.d, key=lambda m: (sum(e for _, e in m), [dict(m).get(a, 0) for a in al]))
    lc = c.d[lm]
    q = const(0, p.sort)
    r = p
    guard = 0
    ldict = dict(lm)
    while True:
        guard += 1
        if guard > 200:
            return None, None
        hit = None
        for m, co in r.d.items():
            md = dict(m)
            if all(md.get(a, 0) >= e for a, e in lm) and Fraction(co) % lc == 0:
                hit = (m, co)
                break
        if hit is None:
            return q, r
        m, co = hit
        md = dict(m)
        for a, e in lm:
            md[a] -= e
            if not md[a]:
                md.pop(a)
        t = P({tuple(sorted(md.items())): _num(Fraction(co) / lc)}, p.sort)
        q = q + t
        r = r - t * c


def _sum_conn(vs, m):
    """One connected sum of a monomial whose factors all depend on vs."""
    if not m:
        # sum of 1: product of sizes (independent) or nested
        if len(vs) == 1:
            return vs[0][1]
        v, n = vs[-1]
        return SUM(vs[:-1], n)
    used = set()
    for a, _ in m:
        used |= ATOMS[a].fv
    for k, (v, n) in enumerate(vs):
        i = vid(v)
        if i not in used and not any(i in nn.fv for _, nn in vs):
            rest = [x for j, x in enumerate(vs) if j != k]
            return SUM(rest, n * mp(m))
    # polynomial summand in a single var (Faulhaber for low degree)
    body = mp(m)
    for k, (v, n) in enumerate(vs):
        co = _poly_in(body, v)
        if co is not None and not any(vid(v) in nn.fv for _, nn in vs) and (set(co) == {0} or (body.sort == 'real' and set(co) <= {0, 1, 2})):
            tot = const(0)
            for e, c in co.items():
                if e == 0:
                    s = n
                elif e == 1:
                    s = (n * (n - 1)) * const(Fraction(1, 2))
                else:
                    s = (n * (n - 1) * (2 * n - 1)) * const(Fraction(1, 6))
                tot = tot + c * s
            rest = [x for j, x in enumerate(vs) if j != k]
            return SUM(rest, tot)
    # canonical naming
    best = None
    if len(vs) > 7:
        raise Unsupported("sum over too many variables")
    cvs = canon_vars_for(len(vs), body, vs)
    perms = _candidate_perms(vs, body)
    for perm in perms:
        env = {}
        sizes = []
        ok = True
        for pos, j in enumerate(perm):
            v, n = vs[j]
            if n.fv & {vid(vs[jj][0]) for jj in perm[pos:]}:
                ok = False
                break
            sizes.append(subst(n, env))
            env[vid(v)] = cvs[pos]
        if not ok:
            continue
        b2 = subst(body, env)
        key = (tuple(s.key for s in sizes), b2.key)
        if best is None or key < best[0]:
            best = (key, sizes, b2)
    if best is None:
        raise Unsupported("cyclic sum sizes")
    _, sizes, b2 = best
    fv = (b2.fv | frozenset().union(*[s.fv for s in sizes])) - {vid(c) for c in cvs}
    at = intern("sum", (tuple(s.key for s in sizes), b2.key), body.sort, fv, None,
                (list(zip(cvs, sizes)), b2))
    return apoly(at)


def peel_sums(p, tail):
    """Bring sums whose ranges differ by a small constant to the common (smaller) range; None if there are none."""
    changed = False
    for _ in range(12):
        ats = {a for m in p.d for a, e in m if ATOMS[a].kind == "sum" and e == 1}
        sizes = {}
        for a in ats:
            vs, _b = ATOMS[a].meta
            ids = {vid(v) for v, _n in vs}
            for v, n in vs:
                if not (n.fv & ids):
                    sizes[n.key] = n
        hit = None
        for n in sizes.values():
            for n2 in sizes.values():
                d = n - n2
                if d.is_const() and 1 <= d.const() <= 4 and CTX.prove(ge0(n2)):
                    hit = (n, n2, int(d.const()))
                    break
            if hit:
                break
        if hit is None:
            break
        changed = True
        n, n2, d = hit
        env = {}
        for a in ats:
            vs, body = ATOMS[a].meta
            for k, (v, sz) in enumerate(vs):
                if sz.key != n.key:
                    continue
                rest = [x for j, x in enumerate(vs) if j != k]
                i = vid(v)
                if tail:
                    r = SUM(vs[:k] + [(v, n2)] + vs[k + 1:], body)
                    ends = [n2 + q for q in range(d)]
                else:
                    r = SUM(vs[:k] + [(v, n2)] + vs[k + 1:], subst(body, {i: v + d}))
                    ends = [const(q) for q in range(d)]
                for e in ends:
                    r = r + SUM([(w, subst(nn, {i: e})) for w, nn in rest], subst(body, {i: e}))
                env[a] = r
                break
        out = const(0, p.sort)
        for m, c in p.d.items():
            t = const(c, None if isinstance(c, int) else "real")
            for a, e in m:
                t = t * (env[a] if a in env and e == 1 else mp(((a, e),)))
            out = out + t
        p = out
    return p if changed else None


def canon_vars_for(k, body, vs):
    """Canonical bound variables not occurring free in the body (nested sums keep their own)."""
    used = set(body.fv)
    for _, n in vs:
        used |= n.fv
    out = []
    j = 0
    while len(out) < k:
        c = canon_vars(j + 1)[j]
        if vid(c) not in used or any(vid(c) == vid(v) for v, _ in vs):
            out.append(c)
        j += 1
    return out


def _candidate_perms(vs, body):
    n = len(vs)
    if n <= 1:
        return [tuple(range(n))]
    # signature: size key + multiset of atom kinds/names where it occurs with position
    sigs = []
    for v, nn in vs:
        i = vid(v)
        s = []
        for m, c in body.d.items():
            for a, e in m:
                at = ATOMS[a]
                if i in at.fv:
                    pos = ()
                    if at.kind == "read":
                        pos = tuple(sorted(_rough(x, i) for x in at.meta[0]))
                    s.append((at.kind, str(at.name), e, pos))
        sigs.append((not nn.is_const(), str(nn.key), tuple(sorted(s))))
    order = sorted(range(n), key=lambda j: sigs[j])
    groups = []
    for j in order:
        if groups and sigs[groups[-1][0]] == sigs[j]:
            groups[-1].append(j)
        else:
            groups.append([j])
    res = [()]
    for g in groups:
        res = [r + p for r in res for p in itertools.permutations(g)]
        if len(res) > 5000:
            raise Unsupported("sum canonicalisation blow-up")
    return res if not any(nn.fv & {vid(w) for w, _ in vs} for _, nn in vs) else \
        list(itertools.permutations(range(n)))


def _rough(p, i):
    return "1" if i in p.fv else "0"


from lumver.ctx import CTX  # noqa: E402

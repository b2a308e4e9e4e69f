"""Python-level values of symbolic length or content: lists, strings, ranges, mappings."""
import builtins
import itertools

from lumver.terms import (P, B, CTX, SUM, TRUE, FALSE, Unsupported, band, bnot, bor, const, eq, fresh, ge0,
                          lift, subst, sym, tob, vid, read)


def _pyint(p):
    if isinstance(p, P) and p.is_const() and isinstance(p.const(), int):
        return p.const()
    return p


class EmptyComp(Unsupported):
    """An element of a comprehension whose index range is contradictory."""


class SymSeq:
    """Immutable sequence: segments ('lit', [items]) | ('map', n, k -> item) in order.
    A map item may itself be a sequence when built by list extension ('flat', n, k -> SymSeq)."""

    def __init__(self, segs):
        out = []
        for s in segs:
            if s[0] == "lit":
                if not s[1]:
                    continue
                if out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + list(s[1]))
                    continue
                out.append(("lit", list(s[1])))
            else:
                n = lift(s[1])
                if n.is_const() and s[0] == "map":
                    items = [s[2](const(k)) for k in range(int(n.const()))]
                    if items:
                        if out and out[-1][0] == "lit":
                            out[-1] = ("lit", out[-1][1] + items)
                        else:
                            out.append(("lit", items))
                    continue
                out.append((s[0], n, s[2]))
        self.segs = out

    def concrete(self):
        return all(s[0] == "lit" for s in self.segs)

    def items(self):
        r = []
        for s in self.segs:
            if s[0] != "lit":
                raise Unsupported("items of a symbolic-length sequence")
            r += s[1]
        return r

    def length(self):
        n = const(0)
        for s in self.segs:
            if s[0] == "lit":
                n = n + len(s[1])
            elif s[0] == "map":
                n = n + s[1]
            else:
                v = fresh("b")
                with CTX.local_vars([(v, s[1])]):
                    m = s[2](v).length()
                n = n + SUM([(v, s[1])], m)
        return n

    def get(self, i):
        i = lift(i)
        n = self.length()
        if i.is_const() and i.const() < 0 or not CTX.prove(ge0(i)) and (
                CTX.prove(ge0(-i - 1)) or bool(ge0(-i - 1))):
            i = i + n
        ok = band(ge0(i), ge0(n - 1 - i))
        if not CTX.prove(ok) and not bool(ok):
            raise IndexError("list index out of range")
        off = const(0)
        for j, s in enumerate(self.segs):
            last = j == len(self.segs) - 1
            if s[0] == "lit":
                m = const(len(s[1]))
            elif s[0] == "map":
                m = s[1]
            else:
                raise Unsupported("indexing a flattened sequence")
            if last or bool(ge0(off + m - 1 - i)):
                r = i - off
                if s[0] == "map":
                    return s[2](r)
                if r.is_const():
                    return s[1][int(r.const())]
                for k in range(len(s[1]) - 1):
                    if bool(eq(r, const(k))):
                        return s[1][k]
                return s[1][-1]
            off = off + m
        raise IndexError("list index out of range")

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        return self.get(i)

    def slice(self, s):
        if s.step not in (None, 1):
            if s.step == -1 and s.start is None and s.stop is None:
                n = self.length()
                return SymSeq([("map", n, lambda k: self.get(n - 1 - lift(k)))])
            raise Unsupported("sequence slice step")
        n = self.length()

        def cl(v, d):
            if v is None:
                return d
            v = lift(v)
            if v.is_const() and v.const() < 0:
                v = v + n
                if not CTX.prove(ge0(v)) and bool(ge0(-v - 1)):
                    v = const(0)
            if not CTX.prove(ge0(n - v)) and bool(ge0(v - n)):
                v = n
            return v
        a, b = cl(s.start, const(0)), cl(s.stop, n)
        ln = b - a
        if not CTX.prove(ge0(ln)) and bool(ge0(-ln)):
            ln = const(0)
        if self.concrete() and a.is_const() and b.is_const():
            return SymSeq([("lit", self.items()[int(a.const()):int(b.const())])])
        # keep aligned literal segments literal
        if CTX.is_zero(a) and CTX.is_zero(ln - n):
            return self
        return SymSeq([("map", ln, lambda k: self.get(lift(k) + a))])

    def __len__(self):
        n = self.length()
        if n.is_const():
            return int(n.const())
        raise Unsupported("len() of a symbolic-length list in uninstrumented code")

    def __iter__(self):
        if self.concrete():
            return iter(self.items())
        n = self.length()
        if n.is_const():
            return iter([self.get(k) for k in range(int(n.const()))])
        raise Unsupported("iteration over a symbolic-length list in uninstrumented code")

    def __add__(self, o):
        o = as_seq(o)
        if o is None:
            return NotImplemented
        return SymSeq(self.segs + o.segs)

    def __radd__(self, o):
        o = as_seq(o)
        if o is None:
            return NotImplemented
        return SymSeq(o.segs + self.segs)

    def __mul__(self, n):
        return seq_repeat(self, n)

    __rmul__ = __mul__

    def __bool__(self):
        return bool(~eq(self.length(), const(0)))

    def __contains__(self, x):
        r = self.find(x)
        return r is not None

    def find(self, x):
        """Index of the item equal to x, or None when provably absent."""
        r = self.locate(x)
        return None if r is None else r[2]

    def without(self, x):
        """The sequence without the first item equal to x (None when absent)."""
        r = self.locate(x)
        if r is None:
            return None
        j, q, _ = r
        s = self.segs[j]
        if s[0] == "lit":
            mid = [("lit", s[1][:q] + s[1][q + 1:])]
        else:
            mid = []
            for n, f in ((q, s[2]), (s[1] - q - 1, lambda k: s[2](lift(k) + q + 1))):
                if CTX.prove(ge0(n - 1)) or not CTX.prove(eq(n, const(0))):
                    mid.append(("map", n, f))
        return SymSeq(self.segs[:j] + mid + self.segs[j + 1:])

    def locate(self, x):
        """(segment, offset in it, index) of the item equal to x, or None when provably absent."""
        off = const(0)
        for j, s in enumerate(self.segs):
            if s[0] == "lit":
                for q, y in enumerate(s[1]):
                    c = val_eq(y, x)
                    if c is True or (c is not False and bool(c)):
                        return j, q, off
                    off = off + 1
                continue
            if s[0] == "flat":
                raise Unsupported("search in a flattened sequence")
            v = fresh("b")
            try:
                with CTX.local_vars([(v, s[1])]):
                    y = s[2](v)
                    c = val_eq(y, x)
            except EmptyComp:           # no index is possible: the segment has length 0
                continue
            if c is False:
                off = off + s[1]
                continue
            if c is True:
                raise Unsupported("search: item independent of its position")
            from lumver.symnp import solve_index
            if c.kind == "eq0":
                with CTX.local_vars([(v, s[1])]):
                    env, cond, left = solve_index([(v, s[1])], c.args[0], const(0))
                if left:
                    raise Unsupported("search")
                if bool(cond):
                    return j, env[vid(v)], off + env[vid(v)]
                off = off + s[1]
                continue
            raise Unsupported(f"search for {x!r} in a symbolic list")
        return None

    def index(self, x):
        r = self.find(x)
        if r is None:
            raise ValueError(f"{x!r} is not in list")
        return _pyint(r)

    def count(self, x):
        raise Unsupported("count")

    def __repr__(self):
        return f"SymSeq({self.segs})"


def seq_repeat(s, n):
    s = as_seq(s)
    n = lift(n)
    if n.is_const():
        out = []
        for _ in range(int(n.const())):
            out += s.segs
        return SymSeq(out)
    m = s.length()
    if m.is_const() and int(m.const()) == 1:
        x = s.get(0)
        return SymSeq([("map", n, lambda k: x)])
    if s.concrete() and all(_is_tensor(x) for x in s.items()):
        # [a, b, ...] * n : keep the period structure (element k*m + j)
        items = s.items()
        return SymSeq([("flat", n, lambda k: SymSeq([("lit", items)]))])
    return SymSeq([("flat", n, lambda k: s)])


def _is_tensor(x):
    from lumver.tensor import T
    return isinstance(x, T)


class SList(list):
    """A list made by verified code; becomes symbolic when a symbolic-length loop appends to it."""
    segs = None     # list of segments once symbolic

    def __init__(self, *a):
        list.__init__(self, *a)
        from lumver import rt
        self._born = rt._BIRTH

    def _sym(self):
        if self.segs is None:
            self.segs = [("lit", list(self))] if list.__len__(self) else []
            list.clear(self)

    def seq(self):
        if self.segs is not None:
            return SymSeq(self.segs)
        return SymSeq([("lit", list(self))])

    def append(self, x):
        from lumver.rt import record
        if record(self, "append", x):
            return
        if self.segs is not None:
            self.segs = SymSeq(self.segs + [("lit", [x])]).segs
        else:
            list.append(self, x)

    def extend(self, xs):
        from lumver.rt import record
        if record(self, "extend", xs):
            return
        if self.segs is not None or is_symseq(xs):
            self._sym()
            self.segs = SymSeq(self.segs + as_seq(xs).segs).segs
        else:
            list.extend(self, list(xs))

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def _mutate(self, *a, **k):
        if self.segs is not None:
            raise Unsupported("mutation of a symbolic-length list")

    def remove(self, x):
        if self.segs is not None:
            r = SymSeq(self.segs).without(x)
            if r is None:
                raise ValueError("list.remove(x): x not in list")
            self.segs = r.segs
            return
        for j, y in enumerate(list(self)):
            c = val_eq(y, x)
            if c is True or (c is not False and bool(c)):
                list.pop(self, j)
                return
        raise ValueError("list.remove(x): x not in list")

    def pop(self, i=-1):
        self._mutate()
        return list.pop(self, i)

    def insert(self, i, x):
        self._mutate()
        from lumver.rt import in_sym_loop
        if in_sym_loop(self):
            raise Unsupported("insert in a symbolic loop")
        list.insert(self, i, x)

    def reverse(self):
        self._mutate()
        list.reverse(self)

    def sort(self, **k):
        self._mutate()
        list.sort(self, **k)

    def __getitem__(self, i):
        if self.segs is not None or isinstance(i, P) or isinstance(i, slice) and any(
                isinstance(x, P) for x in (i.start, i.stop, i.step)):
            return self.seq()[i]
        r = list.__getitem__(self, i)
        return SList(r) if isinstance(i, slice) else r

    def __setitem__(self, i, v):
        self._mutate()
        from lumver.rt import in_sym_loop
        if in_sym_loop(self) or isinstance(i, P):
            raise Unsupported("list item assignment at a symbolic position")
        list.__setitem__(self, i, v)

    def __len__(self):
        if self.segs is not None:
            return len(self.seq())
        return list.__len__(self)

    def __iter__(self):
        if self.segs is not None:
            return iter(self.seq())
        return list.__iter__(self)

    def __add__(self, o):
        if self.segs is not None or is_symseq(o):
            return self.seq() + o
        return SList(list.__add__(self, list(o)))

    def __radd__(self, o):
        if self.segs is not None or is_symseq(o):
            return as_seq(o) + self.seq()
        return SList(list(o) + list(self))

    def __mul__(self, n):
        if self.segs is not None or isinstance(n, P):
            return seq_repeat(self.seq(), n)
        return SList(list.__mul__(self, n))

    __rmul__ = __mul__

    def __bool__(self):
        if self.segs is not None:
            return bool(self.seq())
        return list.__len__(self) > 0

    def index(self, x, *a):
        return self.seq().index(x)

    def __contains__(self, x):
        return self.seq().find(x) is not None

    def __eq__(self, o):
        if self.segs is not None:
            raise Unsupported("comparison of symbolic-length lists")
        return list.__eq__(self, o)

    __hash__ = None

    def copy(self):
        if self.segs is not None:
            r = SList()
            r.segs = list(self.segs)
            return r
        return SList(list.copy(self))


def is_symseq(x):
    return isinstance(x, SymSeq) or isinstance(x, SList) and x.segs is not None or isinstance(
        x, (SymRange, SymZip))


def as_seq(x):
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, SList):
        return x.seq()
    if isinstance(x, SymRange):
        return SymSeq([("map", x.n, lambda k: _pyint(x.start + lift(k)))])
    if isinstance(x, SymZip):
        return SymSeq([("map", x.n, x.item)])
    if isinstance(x, (list, tuple)):
        return SymSeq([("lit", list(x))])
    if hasattr(x, "__sym_iter__"):
        return x.__sym_iter__()
    from lumver.tensor import T
    if isinstance(x, T):
        x = x._frozen()
        n = x.spaces[0].size()
        return SymSeq([("map", n, lambda k: x[k])])
    if isinstance(x, (dict,)) or hasattr(x, "__iter__") and not isinstance(x, (str, SymStr, P)):
        return SymSeq([("lit", list(x))])
    return None


class SymRange:
    def __init__(self, start, stop):
        self.start = lift(start)
        n = lift(stop) - self.start
        if not CTX.prove(ge0(n)) and bool(ge0(-n)):
            n = const(0)
        self.n = n

    def __iter__(self):
        if self.n.is_const():
            return iter([_pyint(self.start + k) for k in range(int(self.n.const()))])
        raise Unsupported("iteration over a symbolic range in uninstrumented code")

    def __len__(self):
        return len(as_seq(self))


class SymZip:
    def __init__(self, seqs, n):
        self.seqs = seqs
        self.n = n

    def item(self, k):
        return tuple(s.get(k) for s in self.seqs)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic zip in uninstrumented code")


# --------------------------------------------------------------------------- strings
class NameAtom:
    """k-th name of a named list; names of one list are pairwise distinct and hold no '.'"""

    def __init__(self, lst, k):
        self.lst = lst
        self.k = lift(k)

    def __repr__(self):
        return f"<{self.lst}#{self.k}>"


class SymStr:
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def __add__(self, o):
        if isinstance(o, str):
            return SymStr(self.parts + (o,))
        if isinstance(o, SymStr):
            return SymStr(self.parts + o.parts)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymStr((o,) + self.parts)
        return NotImplemented

    def __eq__(self, o):
        return val_eq(self, o)

    def __ne__(self, o):
        c = val_eq(self, o)
        return (not c) if isinstance(c, bool) else ~c

    def __hash__(self):
        return 7

    def split(self, sep=None, maxsplit=-1):
        if not sep:
            raise Unsupported("split without separator")
        out = [[]]
        for p in self.parts:
            if isinstance(p, str):
                bits = p.split(sep)
                out[-1].append(bits[0])
                for b in bits[1:]:
                    out.append([b])
            else:
                out[-1].append(p)     # names hold no separator
        if 0 <= maxsplit < len(out) - 1:
            out = out[:maxsplit] + [self._rejoin(out[maxsplit:], sep)]
        return SList([simpl(SymStr(o)) for o in out])

    @staticmethod
    def _rejoin(pieces, sep):
        r = list(pieces[0])
        for p in pieces[1:]:
            r += [sep] + p
        return r

    def rsplit(self, sep=None, maxsplit=-1):
        out = [list(x.parts) if isinstance(x, SymStr) else [x] for x in self.split(sep)]
        if 0 <= maxsplit < len(out) - 1:
            k = len(out) - maxsplit
            out = [self._rejoin(out[:k], sep)] + out[k:]
        return SList([simpl(SymStr(o)) for o in out])

    def partition(self, sep):
        r = self.split(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else (self, "", "")

    def rpartition(self, sep):
        r = self.rsplit(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else ("", "", self)

    def startswith(self, s):
        if isinstance(self.parts[0], str):
            p = self.parts[0]
            if len(p) >= len(s):
                return p.startswith(s)
            if not s.startswith(p):
                return False
        raise Unsupported("startswith")

    def __contains__(self, s):
        if any(isinstance(p, str) and s in p for p in self.parts):
            return True
        if s == ".":
            return False
        raise Unsupported("substring test")

    def __repr__(self):
        return "".join(p if isinstance(p, str) else repr(p) for p in self.parts)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def simpl(s):
    if len(s.parts) == 0:
        return ""
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def val_eq(a, b):
    """Equality of two python values: True / False / B."""
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        if not isinstance(a, (SymStr, str)) or not isinstance(b, (SymStr, str)):
            return False
        pa = a.parts if isinstance(a, SymStr) else (a,)
        pb = b.parts if isinstance(b, SymStr) else (b,)
        da, db = _dotted(pa), _dotted(pb)
        if len(da) != len(db):
            return False                    # names hold no '.'
        if len(da) > 1:
            c = TRUE
            for x, y in zip(da, db):
                e = val_eq(simpl(SymStr(x)), simpl(SymStr(y)))
                if e is False:
                    return False
                c = c if e is True else band(c, e)
            return c.val if c.kind == "const" else c
        for x, y in ((pa, pb), (pb, pa)):   # a literal the contract declares not to be a name
            if len(x) == len(y) == 1 and isinstance(x[0], str) and isinstance(y[0], NameAtom) and x[0] in NON_NAMES:
                return False
        if not pa or not pb or pa == ("",) or pb == ("",):
            return False                    # names are not empty
        # same constant skeleton?
        c = TRUE
        if len(pa) != len(pb):
            if _const_conflict(pa, pb):
                return False
            raise Unsupported(f"string comparison {a!r} == {b!r}")
        for x, y in zip(pa, pb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return False
            elif isinstance(x, NameAtom) and isinstance(y, NameAtom):
                if x.lst != y.lst:
                    return False        # names of different lists are distinct
                c = band(c, _same_pos(x.k, y.k))
            else:
                raise Unsupported(f"string comparison {a!r} == {b!r}")
        if c.kind == "const":
            return c.val
        return c
    if isinstance(a, P) or isinstance(b, P):
        la, lb = lift(a), lift(b)
        if la is None or lb is None:
            return False
        c = eq(la, lb)
        return c.val if c.kind == "const" else c
    return a == b


def _same_pos(a, b):
    """a == b for two positions; f(i) == f(j) is i == j for an array of distinct positions."""
    from lumver.terms import ATOMS
    if len(a.d) == len(b.d) == 1:
        (m, c), (n, d) = *a.d.items(), *b.d.items()
        if c == d == 1 and len(m) == len(n) == 1 and m[0][1] == n[0][1] == 1:
            x, y = ATOMS[m[0][0]], ATOMS[n[0][0]]
            if x.kind == y.kind == "read" and x.name == y.name and x.name in CTX.injective:
                return eq(x.meta[0][0], y.meta[0][0])
    return eq(a, b)


NON_NAMES = {"nope", "time", "steer"}


def _dotted(parts):
    """Parts between the dots."""
    out = [[]]
    for p in parts:
        if isinstance(p, str):
            b = p.split(".")
            out[-1].append(b[0])
            out += [[x] for x in b[1:]]
        else:
            out[-1].append(p)
    return out


def _const_conflict(pa, pb):
    x, y = pa[0], pb[0]
    if isinstance(x, str) and isinstance(y, str):
        n = min(len(x), len(y))
        if x[:n] != y[:n]:
            return True
    x, y = pa[-1], pb[-1]
    if isinstance(x, str) and isinstance(y, str):
        n = min(len(x), len(y))
        if n and x[-n:] != y[-n:]:
            return True
    # a dotted constant part against undotted names
    if ("." in "".join(p for p in pa if isinstance(p, str))) != ("." in "".join(p for p in pb if isinstance(p, str))):
        return True
    return False


def names(lst, n):
    """A list of n distinct names."""
    return SymSeq([("map", n, lambda k: SymStr([NameAtom(lst, k)]))])


class SymEnum:
    """Contract of enum.IntEnum(name, list_of_names, start): member i has value start+i."""

    def __init__(self, name, seq, start=1):
        self.seq = as_seq(seq)
        self.start = lift(start)

    def __getitem__(self, name):
        i = self.seq.find(name)
        if i is None:
            raise KeyError(name)
        return _pyint(self.start + i)

    def __len__(self):
        return len(self.seq)


class SymMap:
    """dict(zip(keys, values)) with a symbolic number of distinct keys."""

    def __init__(self, keys, values):
        self.k = as_seq(keys)
        self.v = as_seq(values)

    def __getitem__(self, name):
        i = self.k.find(name)
        if i is None:
            raise KeyError(name)
        return self.v.get(i)

    def get(self, name, d=None):
        i = self.k.find(name)
        return d if i is None else self.v.get(i)

    def __contains__(self, name):
        return self.k.find(name) is not None

    def __setitem__(self, name, v):
        from lumver.rt import LOOPS
        i = self.k.find(name)
        if LOOPS or i is None:
            raise Unsupported("new or looped assignment to a mapping of symbolic size")
        old, i = self.v, lift(i)
        n = self.k.length()
        # position i now holds v (find decides every case of the key list)
        self.v = SymSeq([("map", n, lambda j: v if bool(eq(lift(j), i)) else old.get(j))])

    def keys(self):
        return self.k

    def values(self):
        return self.v

    def items(self):
        n = self.k.length()
        return SymZip([self.k, self.v], n)

    def __sym_iter__(self):
        return self.k

    def __len__(self):
        return len(self.k)

    def __bool__(self):
        return bool(self.k)

    def __iter__(self):
        return iter(self.k)


def _witnesses(seq):
    """Positions at which a sequence may break: the ends of its segments."""
    off, out = const(0), [const(0)]
    for s in seq.segs:
        if s[0] == "flat":
            raise Unsupported("positions of a flattened sequence")
        off = off + (len(s[1]) if s[0] == "lit" else s[1])
        out += [off - 1, off]
    return out


class SymSet:
    """set(names): the names of the given sequences, without order."""

    def __init__(self, seqs):
        self.seqs = [as_seq(s) for s in seqs]

    def __contains__(self, x):
        return any(x in s for s in self.seqs)

    def has(self, x):
        """The condition under which x is an element."""
        from lumver.tensor import local_cases
        from lumver.terms import bor
        return bor(*[band(c, tob(bool(v))) for c, v in local_cases(lambda: x in self)])

    def issubset(self, o):
        if not isinstance(o, SymSet):
            o = SymSet([SymSeq([("lit", list(o))])])
        for s in self.seqs:
            for g in s.segs:
                if g[0] == "lit":
                    for x in g[1]:
                        c = o.has(x)
                        if not bool(c):
                            return False
                    continue
                if g[0] == "flat":
                    raise Unsupported("subset test of a flattened sequence")
                v = fresh("b")
                with CTX.local_vars([(v, g[1])]):
                    if CTX.prove(eq(g[1], const(0))) or CTX.prove(o.has(g[2](v))):
                        continue
                # look for an element outside at the ends of the segments of either side
                for w in {p.key: p for q in [s] + o.seqs for p in _witnesses(q)}.values():
                    if CTX.prove(band(ge0(w), ge0(g[1] - 1 - w))) and CTX.prove(bnot(o.has(g[2](w)))):
                        return False
                raise Unsupported("subset test of symbolic name sets")
        return True

    def __le__(self, o):
        return self.issubset(o)

    def issuperset(self, o):
        return (o if isinstance(o, SymSet) else SymSet([SymSeq([("lit", list(o))])])).issubset(self)

    __ge__ = issuperset

    def __eq__(self, o):
        if not isinstance(o, (SymSet, set, frozenset)):
            return False
        return self.issubset(o) and self.issuperset(o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __sub__(self, o):
        return Difference(self, o if isinstance(o, SymSet) else SymSet([SymSeq([("lit", list(o))])]))

    difference = __sub__

    def __rsub__(self, o):
        return SymSet([SymSeq([("lit", list(o))])]) - self

    def __and__(self, o):
        raise Unsupported("intersection of symbolic name sets")

    __iter__ = __or__ = __xor__ = __len__ = union = intersection = __and__

    def __bool__(self):
        return any(bool(s) for s in self.seqs)

    def __repr__(self):
        return "{...}"


class Difference:
    """a - b, of which only the emptiness (and a name for messages) is known."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __bool__(self):
        return not self.a.issubset(self.b)

    def __repr__(self):
        return "{...}"

    def _no(self, *a):
        raise Unsupported("elements of a difference of symbolic name sets")

    __iter__ = __len__ = __contains__ = _no


class NameMap:
    """An arbitrary mapping whose keys are those of `keys` in no known order, with value(name index in keys)."""

    def __init__(self, keys, value):
        self.k, self.f = as_seq(keys), value

    def __getitem__(self, name):
        i = self.k.find(name)
        if i is None:
            raise KeyError(name)
        return self.f(i)

    def get(self, name, d=None):
        i = self.k.find(name)
        return d if i is None else self.f(i)

    def __contains__(self, name):
        return self.k.find(name) is not None

    def keys(self):
        return SymSet([self.k])

    def _no(self, *a):
        raise Unsupported("iteration over a mapping whose order is unknown")

    values = __iter__ = __sym_iter__ = _no

    def items(self):
        return NameItems([self])

    def __len__(self):
        return len(self.k)

    def __bool__(self):
        return bool(self.k)

    def __sym_rename__(self, k, n, to):
        return self


class NameItems:
    """items() of mappings in no known order: usable where the order does not matter (another mapping)."""

    def __init__(self, maps):
        self.maps = maps

    def seq(self):
        """The (key, value) pairs in the arbitrary order in which the contract names the keys."""
        segs = []
        for m in self.maps:
            if isinstance(m, NameMap):
                segs += [("lit", [(k, m[k]) for k in g[1]]) if g[0] == "lit" else
                         ("map", g[1], lambda j, g=g, m=m: (g[2](j), m[g[2](j)])) for g in m.k.segs]
            elif isinstance(m, SymMap):
                segs += as_seq(m.items()).segs
            else:
                segs.append(("lit", list(m.items())))
        return SymSeq(segs)

    def _no(self, *a):
        raise Unsupported("iteration over a mapping whose order is unknown")

    __iter__ = __len__ = __sym_iter__ = _no


class SDict(dict):
    """A dict made by verified code, which may hold mappings of symbolic size beside its own entries."""
    sym = None

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        from lumver import rt
        self._born = rt._BIRTH

    def __sym_set__(self, key, v):
        from lumver.rt import record
        if record(self, "put", (key, v)):
            return
        if self.sym:
            for j, m in enumerate(self.sym):
                if key in m:
                    if isinstance(m, NameMap):      # the mapping may be shared: replace it
                        i, old = m.k.find(key), m.f
                        m = NameMap(m.k, lambda k: v if bool(eq(k, i)) else old(k))
                        self.sym = self.sym[:j] + [m] + self.sym[j + 1:]
                    else:
                        if isinstance(m, SymMap):
                            m = SymMap(m.k, m.v)
                            self.sym = self.sym[:j] + [m] + self.sym[j + 1:]
                        m[key] = v
                    return
        dict.__setitem__(self, key, v)

    def put_all(self, n, key, value, ordered=True):
        """self[key(k)] = value(k) for every k < n, in order or in no known order."""
        k, j = CTX.index("k", n), CTX.index("j", n)
        if not self.same_key_once(key, k, j):
            raise Unsupported("keys written in a loop of symbolic length may repeat")
        if dict.__len__(self) or self.sym:
            if key(k) in self:
                raise Unsupported("existing keys overwritten in a loop of symbolic length")
        ks = SymSeq([("map", n, key)])
        vs = SymSeq([("map", n, value)])
        self.sym = (self.sym or []) + [SymMap(ks, vs) if ordered else NameMap(ks, vs.get)]

    @staticmethod
    def same_key_once(key, k, j):
        e = val_eq(key(k), key(j))
        if isinstance(e, bool):
            return not e
        return CTX.prove(bor(bnot(e), eq(k, j)))

    def update(self, *a, **k):
        for m in a:
            if isinstance(m, SDict):
                dict.update(self, {k: dict.__getitem__(m, k) for k in dict.keys(m)})
                if m.sym:
                    self.sym = (self.sym or []) + m.sym
            elif isinstance(m, (SymMap, NameMap)):
                from lumver.rt import LOOPS
                if LOOPS:
                    raise Unsupported("dict update inside a symbolic loop")
                self.sym = (self.sym or []) + [m]      # later names of other lists: keys are disjoint
            else:
                dict.update(self, m)
        dict.update(self, **k)

    def __getitem__(self, name):
        if not self.sym:
            return dict.__getitem__(self, name)
        i = SymSeq([("lit", list(dict.keys(self)))]).find(name)
        if i is not None:
            return list(dict.values(self))[int(i.const())]
        for m in self.sym:
            if name in m:
                return m[name]
        raise KeyError(name)

    def get(self, name, d=None):
        return self[name] if name in self else d

    def __contains__(self, name):
        if not self.sym:
            return dict.__contains__(self, name)
        return SymSeq([("lit", list(dict.keys(self)))]).find(name) is not None or any(name in m for m in self.sym)

    def keys(self):
        if not self.sym:
            return dict.keys(self)
        seqs = [SymSeq([("lit", list(dict.keys(self)))])] if dict.__len__(self) else []
        for m in self.sym:
            seqs += m.keys().seqs if isinstance(m, NameMap) else [as_seq(m.keys())]
        return SymSet(seqs)

    def _no(self):
        raise Unsupported("entries of a dict of symbolic size in no known order")

    def items(self):
        if not self.sym:
            return dict.items(self)
        if not dict.__len__(self) and len(self.sym) == 1:
            return self.sym[0].items()
        return NameItems([{k: dict.__getitem__(self, k) for k in dict.keys(self)}] + self.sym)

    def values(self):
        if not self.sym:
            return dict.values(self)
        if not dict.__len__(self) and len(self.sym) == 1:
            return self.sym[0].values()
        self._no()

    def __iter__(self):
        return dict.__iter__(self) if not self.sym else self._no()

    def __len__(self):
        return dict.__len__(self) if not self.sym else self._no()

    def __bool__(self):
        return dict.__len__(self) > 0 or bool(self.sym) and any(bool(m) for m in self.sym)

    def __deepcopy__(self, memo):
        import copy
        d = SDict({copy.deepcopy(k, memo): copy.deepcopy(dict.__getitem__(self, k), memo) for k in dict.keys(self)})
        d.sym = list(self.sym) if self.sym else None
        return d

    def copy(self):
        d = SDict(dict(self) if not self.sym else dict.copy(self))
        d.sym = list(self.sym) if self.sym else None
        return d

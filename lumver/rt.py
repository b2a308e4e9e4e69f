"""Runtime of the instrumented modules: builtins on symbolic values, symbolic loops."""
import builtins
import copy
import dataclasses
import enum
import itertools
import operator

from lumver.terms import (P, B, CTX, SUM, TRUE, FALSE, ATOMS, Unsupported, apoly, band, bnot, bor, const, eq,
                          fresh, ge0, iverson, lift, subst, tob, vid, _poly_in, as_real)
from lumver.tensor import T, Buf, LOOPS, LocalEx, split_sum, Atm, local_cases
from lumver.seq import (EmptyComp, NameItems, SDict, SymSet, NameMap, SList, SymSeq, SymRange, SymZip, SymStr, SymEnum, SymMap, as_seq, is_symseq,
                        val_eq, simpl, _pyint)


# ------------------------------------------------------------------------- builtins
def b_len(x):
    if isinstance(x, (SymSeq, SymRange, SymZip)):
        return _pyint(as_seq(x).length())
    if isinstance(x, SList):
        return _pyint(x.seq().length())
    if isinstance(x, SymMap):
        return _pyint(x.k.length())
    if isinstance(x, SymEnum):
        return _pyint(x.seq.length())
    if isinstance(x, T):
        if not x.spaces:
            raise TypeError("len() of unsized object")
        return _pyint(x.spaces[0].size())
    if hasattr(x, "__sym_len__"):
        return x.__sym_len__()
    return builtins.len(x)


def b_range(*a):
    if any(isinstance(x, P) for x in a):
        if builtins.len(a) == 3:
            if a[2] == 1:
                return SymRange(a[0], a[1])
            if a[2] == -1:
                n = lift(a[0]) - lift(a[1])
                return SymSeq([("map", n, lambda k: _pyint(lift(a[0]) - lift(k)))])
            st = lift(a[2])
            from lumver.terms import divide
            q, r = divide(lift(a[1]) - lift(a[0]), st)
            if q is not None and CTX.prove(ge0(st - 1)):
                # number of items = ceil((stop-start)/step)
                if not r.d:
                    n = q
                elif CTX.prove(band(ge0(r - 1), ge0(st - 1 - r))):
                    n = q + 1
                else:
                    raise Unsupported("range step")
                return SymSeq([("map", n, lambda k: _pyint(lift(a[0]) + lift(k) * st))])
            raise Unsupported("range step")
        if builtins.len(a) == 1:
            return SymRange(0, a[0])
        return SymRange(a[0], a[1])
    return builtins.range(*a)


def b_sum(x, start=0):
    if isinstance(x, T):
        return start + b_sum(as_seq(x))
    if is_symseq(x):
        s = as_seq(x)
        tot = start
        for g in s.segs:
            if g[0] == "lit":
                for y in g[1]:
                    tot = tot + y
            elif g[0] == "map":
                v = fresh("b")
                with CTX.local_vars([(v, g[1])]):
                    smp = g[2](v)
                if isinstance(smp, T):
                    snap = smp._snap()
                    n, f = g[1], g[2]

                    def el(*c, n=n, f=f):
                        w = fresh("b")
                        return split_sum([(w, n)], lambda: lift(f(w).el(*c)))

                    tot = tot + T(smp.spaces, el, smp.kind)
                else:
                    tot = tot + split_sum([(v, g[1])], lambda: lift(g[2](v)))
            else:
                raise Unsupported("sum of flattened sequence")
        return _pyint(tot) if isinstance(tot, P) else tot
    return builtins.sum(x, start)


def b_zip(*a, **k):
    if any(is_symseq(x) or isinstance(x, (T, SymMap)) for x in a):
        ss = [as_seq(x) for x in a]
        ns = [s.length() for s in ss]
        n = ns[0]
        for m in ns[1:]:
            if not CTX.is_zero(m - n):
                if bool(ge0(m - n)):
                    pass
                else:
                    n = m
        if n.is_const():
            return SList([tuple(s.get(i) for s in ss) for i in builtins.range(int(n.const()))])
        return SymZip(ss, n)
    return builtins.zip(*a, **k)


def b_enumerate(x, start=0):
    if is_symseq(x) or isinstance(x, (T, SymMap)):
        s = as_seq(x)
        n = s.length()
        if len(s.segs) > 1 and all(g[0] != "flat" for g in s.segs):
            off, segs = lift(start), []
            for g in s.segs:
                if g[0] == "lit":
                    segs.append(("lit", [(_pyint(off + j), y) for j, y in builtins.enumerate(g[1])]))
                    off = off + builtins.len(g[1])
                else:
                    segs.append(("map", g[1], lambda k, g=g, o=off: (_pyint(o + lift(k)), g[2](k))))
                    off = off + g[1]
            return SymSeq(segs)
        return SymZip([SymSeq([("map", n, lambda k: _pyint(lift(k) + start))]), s], n)
    return builtins.enumerate(x, start)


def b_list(x=()):
    if is_symseq(x):
        r = SList()
        r.segs = list(as_seq(x).segs)
        if as_seq(x).concrete():
            return SList(as_seq(x).items())
        return r
    if isinstance(x, SymMap):
        return b_list(x.k)
    return SList(x)


def b_tuple(x=()):
    if is_symseq(x):
        s = as_seq(x)
        return builtins.tuple(s.items()) if s.concrete() else s
    return builtins.tuple(x)


def b_dict(*a, **k):
    if a and isinstance(a[0], SymZip):
        z = a[0]
        if builtins.len(z.seqs) == 2:
            return SymMap(z.seqs[0].slice(slice(None)), z.seqs[1])
    if a and isinstance(a[0], SymMap):
        return a[0]
    if a and (isinstance(a[0], (NameMap, NameItems)) or isinstance(a[0], SDict) and a[0].sym):
        d = SDict()
        for m in a[0].maps if isinstance(a[0], NameItems) else [a[0]]:
            d.update(m)
        d.update(**k)
        return d
    return builtins.dict(*a, **k)


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    import numpy as np
    if isinstance(x, P):
        if x.sort == "int":
            return any(q in (int, object) for q in ts) or P in ts
        return any(q in (float, np.floating, object) for q in ts) or P in ts
    if isinstance(x, T):
        return any(q in (np.ndarray, object, T) for q in ts)
    if isinstance(x, SymStr):
        return any(q in (str, object) for q in ts)
    if isinstance(x, SymSeq):
        return any(q in (list, tuple, object) for q in ts)
    if isinstance(x, (SymMap, NameMap)):
        return any(q in (dict, object) for q in ts)
    ts = builtins.tuple(getattr(q, "_real_type", q) for q in ts)
    return builtins.isinstance(x, ts)


def b_int(x=0, *a):
    if isinstance(x, P):
        if x.sort == "int":
            return _pyint(x)
        from lumver.terms import ATOMS
        if all(builtins.isinstance(c, builtins.int) for c in x.d.values()) and all(
                e > 0 and ATOMS[a].sort == "int" for m in x.d for a, e in m):
            return _pyint(P(x.d, "int"))        # a real-sorted term that is an integer
        raise Unsupported(f"int() of a symbolic real {x}")
    return builtins.int(x, *a)


def b_float(x=0):
    if isinstance(x, P):
        return as_real(x)
    if isinstance(x, T):
        return as_real(lift(x.item()))
    return builtins.float(x)


def b_abs(x):
    return abs(x)


def b_max(*a, **k):
    if builtins.len(a) == 1 and not k and is_symseq(a[0]):
        raise Unsupported("max of a symbolic list")
    xs = a if builtins.len(a) > 1 else a[0]
    if not k and isinstance(xs, (list, tuple)) and any(isinstance(x, P) for x in xs):
        r = xs[0]
        for y in xs[1:]:
            if bool(lift(y) > lift(r)):
                r = y
        return r
    return builtins.max(*a, **k)


def b_min(*a, **k):
    xs = a if builtins.len(a) > 1 else a[0]
    if not k and isinstance(xs, (list, tuple)) and any(isinstance(x, P) for x in xs):
        r = xs[0]
        for y in xs[1:]:
            if bool(lift(y) < lift(r)):
                r = y
        return r
    return builtins.min(*a, **k)


def b_all(x):
    if is_symseq(x):
        from lumver import symnp
        return symnp.all(symnp.array(SymSeq([(s[0], [tob(y) for y in s[1]]) if s[0] == "lit" else
                                              (s[0], s[1], lambda k, g=s[2]: tob(g(k))) for s in as_seq(x).segs])))
    return builtins.all(x)


def b_any(x):
    if is_symseq(x):
        return bnot(tob(b_all(SymSeq([(s[0], [bnot(tob(y)) for y in s[1]]) if s[0] == "lit" else
                                       (s[0], s[1], lambda k, g=s[2]: bnot(tob(g(k)))) for s in as_seq(x).segs]))))
    return builtins.any(x)


def b_reversed(x):
    if is_symseq(x):
        return as_seq(x).slice(slice(None, None, -1))
    return builtins.reversed(x)


def b_sorted(x, **k):
    if is_symseq(x):
        raise Unsupported("sorted of a symbolic list")
    return SList(builtins.sorted(x, **k))


def b_IntEnum(name, seq, start=1, **k):
    s = as_seq(seq)
    if s is not None and (not s.concrete() or isinstance(start, P) or any(
            isinstance(x, SymStr) for x in s.items())):
        return SymEnum(name, s, start)
    return enum.IntEnum(name, list(seq), start=start, **k)


def b_round(x, *a):
    if isinstance(x, (P, T)):
        raise Unsupported("round of a symbolic value")
    return builtins.round(x, *a)


def b_str(x=""):
    if isinstance(x, SymStr):
        return x
    return builtins.str(x)


def b_map(f, *xs):
    if any(is_symseq(x) for x in xs):
        ss = [as_seq(x) for x in xs]
        if builtins.len(ss) == 1:
            s = ss[0]
            return SymSeq([("lit", [f(y) for y in g[1]]) if g[0] == "lit" else
                           ("map", g[1], lambda k, g=g: f(g[2](k))) for g in s.segs])
        n = ss[0].length()
        return SymSeq([("map", n, lambda k: f(*[s.get(k) for s in ss]))])
    return builtins.map(f, *xs)


def b_set(x=()):
    if isinstance(x, (SymMap, NameMap)):
        return SymSet([x.keys()] if isinstance(x, SymMap) else x.keys().seqs)
    if isinstance(x, SymSet):
        return x
    if is_symseq(x):
        return SymSet([as_seq(x)])
    if isinstance(x, SList):
        x = list(x)
    if isinstance(x, (list, tuple)) and any(isinstance(y, (SymStr, P)) for y in x):
        return SymSet([as_seq(x)])
    return builtins.set(x)


CALLS = {"set": b_set, "len": b_len, "range": b_range, "sum": b_sum, "zip": b_zip, "enumerate": b_enumerate,
         "list": b_list, "tuple": b_tuple, "dict": b_dict, "isinstance": b_isinstance, "int": b_int,
         "float": b_float, "max": b_max, "min": b_min, "all": b_all, "any": b_any,
         "reversed": b_reversed, "sorted": b_sorted, "round": b_round, "map": b_map, "str": b_str}


def starcall(f, args, kws):
    """f(*args, k=v, ..., **m): mappings of symbolic size travel under one name to the callee's **parameter."""
    kw, sym = {}, []
    for k, v in kws:
        if k is not None:
            v = {k: v}
        elif isinstance(v, SDict):
            if v.sym:
                sym += v.sym
            v = {a: dict.__getitem__(v, a) for a in dict.keys(v)}
        elif isinstance(v, (SymMap, NameMap)):
            sym.append(v)
            continue
        for a in v.keys():
            if a in kw or any(maps_key(m, a) for m in sym):
                raise TypeError(f"got multiple values for keyword argument {a!r}")
            kw[a] = v[a]
    if not sym:
        return f(*args, **kw)
    return f(*args, **kw, lv_sym_=sym)


def maps_key(m, a):
    try:
        return a in m
    except Unsupported:
        return False


def kwin(kw):
    """The **parameter of a function at its entry."""
    if "lv_sym_" not in kw:
        return kw
    sym = kw.pop("lv_sym_")
    d = SDict(kw)
    d.sym = list(sym)
    return d


def mkdict():
    return SDict()


def mklist(items):
    return SList(items)


def starlist(parts):
    r = SList()
    for star, x in parts:
        if star:
            r.extend(x)
        else:
            r.append(x)
    return r


def startuple(parts):
    r = starlist(parts)
    return r.seq() if r.segs is not None else tuple(list.__iter__(r))


def fstr(*parts):
    if any(isinstance(p, SymStr) for p in parts):
        return simpl(SymStr(itertools.chain.from_iterable(
            p.parts if isinstance(p, SymStr) else (str(p),) for p in parts)))
    return "".join(str(p) if not isinstance(p, tuple) or not p or p[0] != "__fmt__" else format(p[1], p[2])
                   for p in parts)


def fmt(v, conv, spec):
    if isinstance(v, (SymStr,)):
        return v
    if conv == 114:
        v = repr(v)
    if conv == 115:
        v = str(v)
    try:
        return format(v, spec)
    except Exception:
        return str(v)


def join(sep, xs):
    if isinstance(sep, (str, SymStr)):
        xs = list(xs)
        if any(isinstance(x, SymStr) for x in xs) or isinstance(sep, SymStr):
            out = []
            for i, x in enumerate(xs):
                if i:
                    out += sep.parts if isinstance(sep, SymStr) else [sep]
                out += x.parts if isinstance(x, SymStr) else [x]
            return simpl(SymStr(out))
    return sep.join(xs)


# ---------------------------------------------------------------------- comprehension
class _Pure:
    """Marks the evaluation of a comprehension body at a generic index (no outer effects allowed)."""

    def __init__(self):
        global _BIRTH
        _BIRTH += 1
        self.birth = _BIRTH
        _BIRTH += 1
        self.own = set()
        self.pre_lists = set()
        self.reads = set()
        self.events = self

    def append(self, x):
        raise Unsupported("list modified inside a comprehension over a symbolic list")

    def is_outer(self, lst):
        return getattr(lst, "_born", 0) < self.birth


class Generic:
    """value(k) for a generic 0 <= k < n, evaluated once, with the branches it takes."""

    def __init__(self, n, f):
        self.n = lift(n)
        self.k = fresh("g")
        LOOPS.append(_Pure())
        try:
            with CTX.local_vars([(self.k, self.n)]):
                if CTX.prove(eq(self.n, const(0))):
                    self.cases = []
                else:
                    self.cases = local_cases(lambda: f(self.k))
        finally:
            LOOPS.pop()

    def __call__(self, j):
        j = lift(j)
        ki = vid(self.k)
        for c, v in self.cases[:-1]:
            if c.kind == "const" or bool(_bren(c, ki, j)):
                return rename(v, self.k, self.n, j)
        if not self.cases:
            raise EmptyComp("element of an empty comprehension")
        return rename(self.cases[-1][1], self.k, self.n, j)


class SGen(SList):
    """A generator expression, evaluated eagerly (its parts have no side effects on each other)."""

    def __next__(self):
        if self.segs is not None:
            raise Unsupported("next() of a generator of symbolic length")
        if not list.__len__(self):
            raise StopIteration
        return list.pop(self, 0)


def comp(fn, it, conds=None, kind="list"):
    """[fn(x) for x in it if conds(x)]"""
    if isinstance(it, SymMap):
        it = it.k
    sq = None
    if isinstance(it, T) and it.ndim == 1 and not isinstance(it.spaces[0], Atm) and kind in ("list", "gen") \
            and conds is None and not it.spaces[0].size().is_const():
        return comp_tensor(fn, it)
    if is_symseq(it) or (isinstance(it, T) and not it.spaces[0].size().is_const()):
        sq = as_seq(it)
    elif hasattr(it, "__sym_iter__"):
        sq = it.__sym_iter__()
    if sq is not None and not sq.concrete():
        if conds is not None:
            return comp_filter(fn, sq, conds, kind)
        segs = []
        for s in sq.segs:
            if s[0] == "lit":
                segs.append(("lit", [fn(x) for x in s[1]]))
            elif s[0] == "map":
                segs.append(("map", s[1], Generic(s[1], lambda k, g=s[2]: fn(g(k)))))
            else:
                segs.append(("flat", s[1], Generic(s[1], lambda k, g=s[2]: comp_seq(fn, g(k)))))
        if kind in ("list", "gen"):
            r = SList()
            r.segs = SymSeq(segs).segs
            return r
        raise Unsupported(f"{kind} comprehension over a symbolic list")
    if sq is not None:
        it = sq.items()
    out = [fn(x) for x in it if conds is None or conds(x)]
    if kind == "list":
        return SList(out)
    if kind == "gen":
        return SGen(out)
    if kind == "set":
        return set(out)
    if kind == "dict":
        return dict(out)
    raise Unsupported(kind)


class TList(SList):
    """[fn(x) for x in array], which also is the array of these values."""
    tensor = None


def comp_tensor(fn, it):
    from lumver.tensor import any_coord
    snap, sp = it._snap(), it.spaces[0]
    now = Buf.clock

    def el(c):
        LOOPS.append(_Pure())
        try:
            cases = local_cases(lambda: fn(snap(c)))
            if any(b.made <= now < b.stamp for b in LOOPS[-1].reads):
                raise Unsupported("comprehension over an array read after one of its inputs was modified")
        finally:
            LOOPS.pop()
        if not cases:
            return const(0)
        if all(builtins.isinstance(v, (bool, B)) for _, v in cases):
            return bor(*[band(tob(b), tob(v)) for b, v in cases])
        tot = const(0)
        for b, v in cases:
            if lift(v) is None:
                raise Unsupported("comprehension over an array with values that are not numbers")
            tot = tot + lift(v) * iverson(tob(b))
        return tot
    k = sample_kind(el, sp)
    t = T([sp], el, k)
    seg = ("map", sp.size(), lambda j: t.at(j))
    r = TList()
    r.segs = [seg]
    r.tensor = (t, seg)
    return r


def sample_kind(el, sp):
    for vs, c, b in sp.binders():
        with CTX.local_vars(vs):
            v = el(c)
        return "bool" if builtins.isinstance(v, (B, bool)) else lift(v).sort
    return "real"


def comp_filter(fn, sq, conds, kind):
    """Filtered comprehension: supported when the condition has a fixed truth on each segment, or
    selects an interval of it."""
    segs = []
    for s in sq.segs:
        if s[0] == "lit":
            segs.append(("lit", [fn(x) for x in s[1] if conds(x)]))
            continue
        if s[0] != "map":
            raise Unsupported("filtered comprehension over a symbolic list")
        g = Generic(s[1], lambda k, g=s[2]: tob_any(conds(g(k))))
        with CTX.local_vars([(g.k, g.n)]):
            c = bor(*[band(cc, v) for cc, v in g.cases])
            always, never = CTX.prove(c), CTX.prove(bnot(c))
        if always:
            segs.append(("map", s[1], Generic(s[1], lambda k, g=s[2]: fn(g(k)))))
        elif never:
            continue
        else:
            raise Unsupported("filtered comprehension over a symbolic list")
    r = SList()
    r.segs = SymSeq(segs).segs
    if SymSeq(segs).concrete():
        return SList(SymSeq(segs).items())
    return r


def tob_any(x):
    return tob(x) if isinstance(x, (B, bool)) else tob(bool(x))


def flatcomp(fn, it, conds=None, kind="list"):
    """[y for x in it if conds(x) for y in fn(x)]   (dict: the union, later ones winning)"""
    if isinstance(it, SymMap):
        it = it.k
    sq = as_seq(it) if is_symseq(it) else it.__sym_iter__() if hasattr(it, "__sym_iter__") else None
    if sq is None and isinstance(it, T):
        sq = as_seq(it)
    if sq is not None and not sq.concrete():
        if kind == "dict" or kind == "set":
            raise Unsupported(f"nested {kind} comprehension over a symbolic list")
        segs = []
        for s in sq.segs:
            if s[0] == "lit":
                for x in s[1]:
                    if conds is None or conds(x):
                        segs += as_seq(fn(x)).segs
            elif s[0] == "map" and conds is None:
                segs.append(("flat", s[1], Generic(s[1], lambda k, g=s[2]: as_seq(fn(g(k))))))
            else:
                raise Unsupported("nested comprehension over a symbolic list")
        r = SList()
        r.segs = SymSeq(segs).segs
        return r
    xs = [fn(x) for x in (it if sq is None else sq.items()) if conds is None or conds(x)]
    if kind == "dict":
        if len(xs) == 1:
            return xs[0]
        out = SDict()
        for x in xs:
            out.update(x)
        return out
    r = SGen() if kind == "gen" and all(x.segs is None for x in xs) else SList()
    for x in xs:
        r.extend(x)
    return set(r) if kind == "set" else r


def unpackstar(x, before, after):
    """The values of `a, *b, c = x` as a tuple of before + 1 + after."""
    sq = as_seq(x) if is_symseq(x) else x.__sym_iter__() if hasattr(x, "__sym_iter__") else None
    if isinstance(x, T) and not x.spaces[0].size().is_const():
        sq = as_seq(x)
    if sq is None or sq.concrete():
        xs = list(x if sq is None else sq.items())
        if len(xs) < before + after:
            raise ValueError(f"not enough values to unpack (expected at least {before + after}, got {len(xs)})")
        k = len(xs) - after
        return tuple(xs[:before]) + (SList(xs[before:k]),) + tuple(xs[k:])
    n = sq.length()
    if not CTX.prove(ge0(n - before - after)) and bool(ge0(before + after - 1 - n)):
        raise ValueError("not enough values to unpack")
    mid = SList()
    mid.segs = sq.slice(slice(before or None, n - after if after else None)).segs
    return (tuple(sq.get(const(i)) for i in range(before)) + (mid,)
            + tuple(sq.get(n - after + i) for i in range(after)))


def comp_seq(fn, s):
    return SymSeq([("lit", [fn(x) for x in g[1]]) if g[0] == "lit" else
                   ("map", g[1], Generic(g[1], lambda k, g=g: fn(g[2](k)))) for g in s.segs])


def dict_segs(fn, sq):
    """Keys and values of {k: v} built over a sequence, segment by segment."""
    ks, vs = [], []
    for s in sq.segs:
        if s[0] == "lit":
            xs = [fn(x) for x in s[1]]
            ks.append(("lit", [x[0] for x in xs]))
            vs.append(("lit", [x[1] for x in xs]))
        elif s[0] == "map":
            h = Generic(s[1], lambda k, s=s: fn(s[2](k)))
            ks.append(("map", s[1], lambda k, h=h: h(k)[0]))
            vs.append(("map", s[1], lambda k, h=h: h(k)[1]))
        else:
            raise Unsupported("dict comprehension over a flattened sequence")
    return SymSeq(ks), SymSeq(vs)


def dictcomp(fn, it, conds=None):
    if isinstance(it, NameItems):
        if conds is not None:
            raise Unsupported("filtered dict comprehension over a mapping in no known order")
        q = it.seq()
        ks, vs = dict_segs(fn, q)
        return NameMap(ks, vs.get)
    sq = None
    if is_symseq(it):
        sq = as_seq(it)
    elif isinstance(it, SymMap):
        sq = it.k
    elif hasattr(it, "__sym_iter__"):
        sq = it.__sym_iter__()
    if sq is not None and not sq.concrete():
        if conds is not None:
            raise Unsupported("filtered dict comprehension over a symbolic list")
        return SymMap(*dict_segs(fn, sq))
    if sq is not None:
        it = sq.items()
    return SDict(fn(x) for x in it if conds is None or conds(x))


# ----------------------------------------------------------------------- symbolic loops
_MISSING = object()


def is_sym_iter(it):
    if isinstance(it, (SymMap, NameItems)):
        return True
    if isinstance(it, T):
        return not it.spaces[0].size().is_const()
    if hasattr(it, "__sym_iter__"):
        return not it.__sym_iter__().concrete()
    return is_symseq(it) and not as_seq(it).concrete()


def record(lst, op, x):
    """Append/extend on a list created outside the innermost symbolic loop pass."""
    if not LOOPS:
        return False
    lp = LOOPS[-1]
    if id(lst) in lp.own:
        return False
    if id(lst) not in lp.pre_lists and not lp.is_outer(lst):
        return False
    lp.events.append((lst, op, x))
    return True


def in_sym_loop(lst):
    return bool(LOOPS) and LOOPS[-1].is_outer(lst)


class Loop:
    """Summary of `for target in it: body` over a symbolic-length sequence.

    The body is executed once per branch at a generic iteration k (0 <= k < n) with the
    loop-carried numeric variables replaced by accumulator symbols; the inferred invariant
       acc(k) = acc0 + SUM_{j<k} g(j)      (numbers and tensors)
       list(k) = list0 ++ [e(0), ..., e(k-1)]
    is checked by the second pass, in which the accumulators hold that value."""

    def __init__(self, it):
        self.unordered = isinstance(it, NameItems)
        s = it.k if isinstance(it, SymMap) else it.seq() if self.unordered else as_seq(it)
        self.seq = s
        self.n = s.length()
        self.k = CTX.index("k", self.n)
        self.phase = 1
        self.passes = []       # finished passes of the current phase
        self.ex = None
        self.events = []
        self.own = set()
        self.pre_lists = set()
        self.entry = None
        self.acc = {}
        self.gens = {}
        self.incs = {}
        self.pinned = None
        self.nonempty = None
        self.attr_writes = []
        self.reads = set()     # arrays read by the body

    # An SList is 'outer' if it existed before this pass: created lists register in `own`
    def is_outer(self, lst):
        return getattr(lst, "_born", 0) < self.birth

    def start(self, frame):
        """frame: values of the variables the body assigns, before the loop."""
        self.entry = dict(frame)
        if CTX.prove(eq(self.n, const(0))):
            self.nonempty = False
            return
        self.nonempty = True
        self.todo = None

    def step(self):
        if not self.nonempty:
            return False
        if self.ex is None:
            self.ex = LocalEx()
            self.results = []
            self.saved = (len(CTX.facts), dict(CTX.bounds), dict(CTX.subs))
        else:
            pass
        if self.ex.pending:
            self.ex.decisions = self.ex.pending.pop()
            self.ex.pos = 0
            self.ex.conds = []
            self.events = []
            global _BIRTH
            _BIRTH += 1
            self.birth = _BIRTH
            _BIRTH += 1
            self._cm = CTX.assuming()
            self._cm.__enter__()
            CTX.local.append(self.ex)
            LOOPS.append(self)
            return True
        # all branches of this phase done
        if self.phase == 1:
            carried = self.infer()
            if carried:
                self.phase = 2
                self.ex = None
                return self.step()
        return False

    def item(self):
        return self.seq.get(self.k)

    def carried_in(self, name):
        """Value of a body-assigned variable at the start of the generic iteration."""
        v = self.entry.get(name, _MISSING)
        if v is _MISSING:
            return _MISSING
        if self.phase == 1:
            if isinstance(v, bool):
                return v
            l = lift(v) if not isinstance(v, (T, SList, str, SymStr)) else None
            if l is not None:
                a = fresh(f"acc_{name}", l.sort)
                if l.sort == "int" and CTX.prove(ge0(l)):
                    pass
                self.acc[name] = ("num", a, l)
                return a
            if isinstance(v, T):
                from lumver.terms import read
                nm = f"accT_{name}!{next(_cnt)}"
                sp = v.spaces
                a = T(sp, lambda *c: read(nm, [s.lin(x) for s, x in zip(sp, c)], v.kind), v.kind)
                self.acc[name] = ("ten", a, v, nm)
                return a
            return v
        g = self.gens.get(name)
        if g is None:
            return v
        return g(self.k)

    def end(self, frame, exc=None):
        """End of one branch of the generic iteration."""
        CTX.local.pop()
        LOOPS.pop()
        conds = list(self.ex.conds)
        self._cm.__exit__(None, None, None)
        self.results.append((conds, dict(frame), list(self.events)))

    def infer(self):
        """From the phase-1 branches work out the accumulator generators."""
        carried = False
        self.stable = {}
        for name, a in self.acc.items():
            if a[0] == "num":
                _, s, v0 = a
                incs = []
                changed = False
                overwritten = False
                for conds, fr, ev in self.results:
                    v = fr.get(name)
                    l = lift(v) if not isinstance(v, (T, SList)) and v is not None else None
                    if l is None:
                        overwritten = True
                        continue
                    d = l - s
                    if vid(s) in d.fv:
                        overwritten = True
                    if d.d:
                        changed = True
                    incs.append((conds, d))
                used = any(vid(s) in _fvs(fr.get(nm)) for conds, fr, ev in self.results for nm in fr if nm != name) \
                    or any(vid(s) in _fvs(x) for conds, fr, ev in self.results for _, _, x in ev)
                used_inc = any(vid(s) in d.fv for _, d in incs)
                if not changed:
                    # never modified: it keeps its entry value
                    self.gens[name] = lambda k, v=self.entry[name]: v
                    self.stable[name] = "const"
                    carried = True
                    continue
                if overwritten or used_inc:
                    lastonly = all(vid(s) not in _fvs(fr.get(name)) for _, fr, _ in self.results)
                    if lastonly and not used:
                        self.stable[name] = "last"
                        continue
                    raise Unsupported(f"loop-carried variable {name!r} has no accumulator invariant")
                if any(_fvs_cond(c, vid(s)) for conds, _ in incs for c in conds):
                    raise Unsupported("branch on an accumulator")

                def g(k, v0=v0, incs=incs, me=self.k):
                    w = fresh("b")
                    tot = v0
                    for conds, d in incs:
                        dd = subst(d * iverson(band(*conds)) if conds else d, {vid(me): w})
                        tot = tot + SUM([(w, lift(k))], dd)
                    return _pyint(tot)
                self.gens[name] = g
                self.incs[name] = incs
                self.stable[name] = "acc"
                carried = True
            else:
                _, s, v0, nm = a
                incs = []
                changed = False
                for conds, fr, ev in self.results:
                    v = fr.get(name)
                    if v is s:
                        continue
                    changed = True
                    if not isinstance(v, T) or v.ndim != v0.ndim:
                        self.stable[name] = "last"
                        break
                    incs.append((conds, v))
                if not changed:
                    self.gens[name] = lambda k, v=self.entry[name]: v
                    carried = True
                    self.stable[name] = "const"
                    continue
                if self.stable.get(name) == "last":
                    continue
                # v = s + g(k) elementwise?  check on a generic element
                spaces = v0.spaces
                fs = []
                for conds, v in incs:
                    fs.append((conds, v._snap()))

                def g(k, v0=v0, s0=v0._snap(), fs=fs, me=self.k, nm=nm, spaces=spaces):
                    def el(*c):
                        tot = lift(s0(*c))
                        for conds, v in fs:
                            d = lift(v(*c)) - _accread(nm, spaces, c, v0.kind)
                            if _mentions(d, nm):
                                raise Unsupported("tensor accumulator is not additive")
                            w = fresh("b")
                            tot = tot + SUM([(w, lift(k))], subst(d * iverson(band(*conds)) if conds else d, {vid(me): w}))
                        return tot
                    return T(spaces, el, v0.kind)
                self.gens[name] = g
                self.stable[name] = "acc"
                carried = True
        return carried

    def finish(self):
        """Final values of the assigned variables; commits list appends."""
        if not self.nonempty:
            return {}
        if self.unordered and (any(x != "const" for x in self.stable.values()) or any(
                not isinstance(l, SDict) for _, _, ev in self.results for l, _, _ in ev)):
            raise Unsupported("iteration over a mapping whose order is unknown")
        out = {}
        names_ = set()
        for conds, fr, ev in self.results:
            names_ |= set(fr)
        for name in names_:
            if name in self.gens:
                # accumulators: verify the phase-2 step re-establishes the invariant
                for conds, fr, ev in self.results:
                    v = fr.get(name, _MISSING)
                    if v is _MISSING:
                        continue
                    acc = self.stable.get(name) == "acc"
                    want = self.gens[name](self.k + 1) if acc else self.gens[name](self.k)
                    with CTX.assuming(*conds):
                        if isinstance(want, T) or isinstance(v, T):
                            continue
                        if lift(v) is None or lift(want) is None:
                            ok = v is want
                        else:
                            ok = CTX.prove(eq(lift(v), lift(want)))
                            if not ok and acc and name in self.incs:
                                # prefix sums: SUM_{j<k+1} g(j) = SUM_{j<k} g(j) + g(k)
                                w = lift(self.gens[name](self.k))
                                for cc, d in self.incs[name]:
                                    w = w + (d * iverson(band(*cc)) if cc else d)
                                ok = CTX.prove(eq(lift(v), w))
                        if not ok:
                            # SUM over j<k+1 = SUM over j<k + g(k)
                            raise Unsupported(f"loop invariant of {name!r} not inductive")
                out[name] = self.gens[name](self.n)
            else:
                # value of the last iteration
                last = self.n - 1
                vals = []
                for conds, fr, ev in self.results:
                    if name not in fr:
                        continue
                    vals.append((conds, fr[name]))
                out[name] = _Last(self, name, vals) if not self.unordered else _Unordered()
        # list appends, in body order
        self.commit_events()
        for name, v in list(out.items()):
            if isinstance(v, _Last):
                out[name] = v.value()
        return out

    def commit_events(self):
        per = {}
        order = []
        for conds, fr, ev in self.results:
            seen = {}
            for lst, op, x in ev:
                if id(lst) not in per:
                    per[id(lst)] = (lst, [])
                    order.append(id(lst))
        for i in order:
            lst, _ = per[i]
            branches = []
            if isinstance(lst, T):
                self.commit_set(lst, [(conds, [x for l, op, x in ev if l is lst]) for conds, fr, ev in self.results])
                continue
            for conds, fr, ev in self.results:
                evs = [(op, x) for l, op, x in ev if l is lst]
                branches.append((conds, evs))
            if isinstance(lst, SDict):
                self.commit_put(lst, branches)
                continue
            segs = self.list_segments(branches)
            if LOOPS and LOOPS[-1].is_outer(lst):
                LOOPS[-1].events.append((lst, "extend", SymSeq(segs)))
                continue
            lst._sym()
            lst.segs = SymSeq(lst.segs + segs).segs

    def commit_put(self, d, branches):
        """d[key(k)] = v(k) for every k."""
        if builtins.len(branches) != 1 or builtins.len(branches[0][1]) != 1 or branches[0][0]:
            raise Unsupported("several or conditional entries of a dict in a loop of symbolic length")
        if LOOPS and LOOPS[-1].is_outer(d):
            raise Unsupported("dict written in nested loops of symbolic length")
        key, v = branches[0][1][0][1]
        at = lambda x: (lambda k: rename(x, self.k, self.n, lift(k)))
        d.put_all(self.n, at(key), at(v), not self.unordered)

    def commit_set(self, x, branches):
        """x[i(k)] = v(k) for every k: element c is v at the last k with i(k) = c, if any, else the old one."""
        from lumver.symnp import solve_index, _commit
        evs = [(conds, e[-1]) for conds, e in branches if e]
        if any(builtins.len(e) > 1 for _, e in branches):
            raise Unsupported("several writes to one array in a loop of symbolic length")
        if x.buf in self.reads:
            raise Unsupported("an array both read and written in a loop of symbolic length")
        if not x._fresh():
            raise Unsupported("write through a stale view")
        ki = vid(self.k)
        old, sps, k, n = x._fn, x.spaces, self.k, self.n
        # values of the loop variable are fixed now
        ws = []
        for conds, (bvs, idx, v) in evs:
            g = band(*conds) if conds else TRUE
            if not any(ki in i.fv for i in idx):
                with CTX.local_vars([(k, n)]), CTX.assuming(g):
                    one = next((e for e in (const(0), n - 1) if CTX.prove(eq(k, e))), None)
                if one is None:
                    raise Unsupported("one element written by every iteration")
                g, idx, v = _bren(g, ki, one), [subst(i, {ki: one}) for i in idx], subst(lift(v), {ki: one})
                ws.append((g, one, list(bvs), idx, v))
            else:
                ws.append((g, None, [(k, n)] + list(bvs), idx, lift(v)))

        def f(*c):
            hits = []
            for g, one, vs, idx, v in ws:
                env = None if vs else {}
                at = {vid(u) for u, _ in vs}
                cond = TRUE
                for sp, cx, i in zip(sps, c, idx):
                    if env is None and at & i.fv:
                        with CTX.local_vars(vs):
                            env, ok, left = solve_index(vs, i, sp.lin(cx))
                        if left:
                            with CTX.local_vars([(u, m) for u, m in vs if vid(u) in left]):
                                none = CTX.prove(bnot(ok))
                            if not none:
                                raise Unsupported("cannot invert the index of a loop's writes")
                            ok, env = FALSE, {vid(u): const(0) for u, _ in vs}
                        cond = band(cond, ok)
                for sp, cx, i in zip(sps, c, idx):
                    cond = band(cond, eq(subst(i, env), sp.lin(cx)))
                if builtins.bool(cond):
                    it = lift(env[ki] if one is None else one)
                    if builtins.bool(_bren(g, ki, it)):
                        hits.append((it, subst(v, env)))
            if not hits:
                return old(*c)
            k0, v0 = hits[0]            # branches of one iteration exclude each other: no ties
            for k1, v1 in hits[1:]:
                if builtins.bool(ge0(k1 - k0)):
                    k0, v0 = k1, v1
            return v0
        _commit(x, f)

    def list_segments(self, branches):
        ki = vid(self.k)

        def seg(evs, lo, n):
            if len(evs) == 1 and evs[0][0] == "append":
                x = evs[0][1]
                return [("map", n, lambda k: rename(x, self.k, self.n, lift(k) + lo))]
            if not evs:
                return []
            def inner(k):
                out = []
                for op, x in evs:
                    y = rename(x, self.k, self.n, lift(k) + lo)
                    out += [("lit", [y])] if op == "append" else as_seq(y).segs
                return SymSeq(out)
            return [("flat", n, inner)]

        # drop branches by merging those with equal effects is not attempted; need a partition of [0,n)
        if len(branches) == 1:
            return seg(branches[0][1], const(0), self.n)
        pieces = []
        for conds, evs in branches:
            r = self.interval(conds)
            if r is None:
                raise Unsupported(f"conditional append in a symbolic loop: {[str(c) for c in conds]}")
            lo, n = r
            pieces.append((lo, n, evs))
        # order by lower bound; a single iteration that does what the next ones do at its place joins them
        pieces = _order(pieces)
        j = 0
        while j + 1 < builtins.len(pieces):
            (lo, n, evs), (lo2, n2, evs2) = ((lift(l), lift(m), e) for l, m, e in pieces[j:j + 2])
            if CTX.is_zero(n - 1) and CTX.is_zero(lo2 - lo - n) and self.same_effects(evs, evs2, lo):
                pieces[j:j + 2] = [(lo, n2 + 1, evs2)]
            else:
                j += 1
        out = []
        pos = const(0)
        for lo, n, evs in pieces:
            if not CTX.is_zero(lo - pos):
                raise Unsupported("loop branches do not partition the range")
            out += seg(evs, lo, n)
            pos = pos + n
        if not CTX.is_zero(pos - self.n):
            raise Unsupported("loop branches do not partition the range")
        return out

    def same_effects(self, a, b, at):
        """Whether two branches append the same numbers and arrays at iteration `at` (False: not shown)."""
        if builtins.len(a) != builtins.len(b):
            return False
        try:
            for (op, x), (op2, y) in zip(a, b):
                if op != "append" or op2 != op:
                    return False
                x, y = (rename(v, self.k, self.n, at) for v in (x, y))
                if isinstance(x, T) and isinstance(y, T):
                    if x.ndim != y.ndim or not all(CTX.prove(eq(lift(p), lift(q))) for p, q in zip(x.shape, y.shape)):
                        return False
                    idx = [CTX.index("t", lift(p)) for p in x.shape]
                    x, y = x[builtins.tuple(idx)], y[builtins.tuple(idx)]
                l, m = lift(x), lift(y)
                if l is None or m is None or not CTX.prove(eq(l, m)):
                    return False
        except Unsupported:
            return False
        return True

    def interval(self, conds):
        """[lo, lo+n) of the k satisfying conds (each a comparison of k with a k-free bound)."""
        lo, hi = const(0), self.n
        ki = vid(self.k)
        conds = [x for c in conds for x in (c.args if c.kind == "and" else (c,))]
        nes = []
        for c in conds:
            if ki not in c.fv:
                continue
            neg = c.kind == "not"
            b = c.args[0] if neg else c
            if b.kind not in ("ge0", "eq0"):
                return None
            p = b.args[0]
            co = _poly_in(p, self.k)
            if co is None or set(co) - {0, 1} or not co[1].is_const() or co[1].const() not in (1, -1):
                return None
            e = co.get(0, const(0))
            if b.kind == "eq0":
                v = -e * co[1].const()
                if neg:
                    nes.append(v)
                else:
                    lo, hi = v, v + 1
            else:
                if co[1].const() == 1:
                    lo = _mx(lo, -e)
                else:
                    hi = _mn(hi, e + 1)
                if lo is None or hi is None:
                    return None
        for v in nes:
            if CTX.is_zero(v - lo):
                lo = lo + 1
            elif CTX.is_zero(v - hi + 1):
                hi = hi - 1
            else:
                return None
        return lo, hi - lo


_BIRTH = 1
_cnt = itertools.count()


def _accread(nm, spaces, c, kind):
    from lumver.terms import read
    return read(nm, [s.lin(x) for s, x in zip(spaces, c)], kind)


def _mentions(p, nm):
    todo = [p]
    for m in p.d:
        for a, _ in m:
            if _atom_mentions(ATOMS[a], nm):
                return True
    return False


def _atom_mentions(a, nm):
    if a.kind == "read":
        return a.name == nm or any(_mentions(i, nm) for i in a.meta[0])
    if a.kind == "fn":
        return any(_mentions(i, nm) for i in a.meta)
    if a.kind == "inv":
        return _mentions(a.meta, nm)
    if a.kind == "sum":
        return _mentions(a.meta[1], nm)
    return False


def _mx(a, b):
    if CTX.prove(ge0(a - b)):
        return a
    if CTX.prove(ge0(b - a)):
        return b
    return None


def _mn(a, b):
    if CTX.prove(ge0(a - b)):
        return b
    if CTX.prove(ge0(b - a)):
        return a
    return None


def _order(ps):
    out = []
    for p in ps:
        i = 0
        while i < len(out) and CTX.prove(ge0(p[0] - out[i][0])):
            i += 1
        out.insert(i, p)
    return out


def _fvs(v):
    if isinstance(v, (P, B)):
        return v.fv
    if isinstance(v, T):
        return frozenset()
    if isinstance(v, (list, tuple)):
        s = frozenset()
        try:
            for x in v:
                s |= _fvs(x)
        except Unsupported:
            pass
        return s
    return frozenset()


def _fvs_cond(c, i):
    return i in c.fv


class _Unordered:
    """What the last iteration over a mapping in no known order left in a variable: not to be used."""

    def _no(self, *a, **k):
        raise Unsupported("value left by an iteration over a mapping whose order is unknown")

    __getattr__ = __eq__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __bool__ = __call__ = _no
    __getitem__ = __iter__ = __len__ = __hash__ = __str__ = __format__ = __lt__ = __gt__ = __neg__ = __truediv__ = _no


class _Last:
    def __init__(self, loop, name, vals):
        self.loop, self.name, self.vals = loop, name, vals

    def value(self):
        lp = self.loop
        last = lp.n - 1
        env_vals = []
        if lift(lp.k).is_const():       # a single iteration
            for conds, v in self.vals[:-1]:
                if bool(band(*conds) if conds else TRUE):
                    return v
            return self.vals[-1][1] if self.vals else _MISSING
        for conds, v in self.vals:
            c = band(*[_bren(x, vid(lp.k), last) for x in conds]) if conds else TRUE
            env_vals.append((c, v))
        for c, v in env_vals[:-1]:
            if bool(c):
                return rename(v, lp.k, lp.n, last)
        if not env_vals:
            return _MISSING
        return rename(env_vals[-1][1], lp.k, lp.n, last)


def _bren(b, ki, to):
    from lumver.terms import bsubst
    return bsubst(b, {ki: to})


def rename(x, k, n, to):
    """x with the iteration symbol k (0 <= k < n) replaced."""
    to = lift(to)
    if lift(k).is_const():      # a single iteration
        return x
    ki = vid(k)
    if isinstance(x, P):
        return _pyint(subst(x, {ki: to}))
    if isinstance(x, B):
        return _bren(x, ki, to)
    if isinstance(x, T):
        from lumver.tensor import Prod, Cat, DSum, Filt

        def sp(s):
            if isinstance(s, Atm):
                return Atm(subst(s.n, {ki: to}))
            if isinstance(s, Prod):
                return Prod(*[sp(f) for f in s.fs])
            if isinstance(s, Cat):
                return Cat([sp(f) for f in s.parts])
            if isinstance(s, DSum):
                return DSum(subst(s.n, {ki: to}), lambda j: sp(s.sp(j)))
            if isinstance(s, Filt):
                b = sp(s.base)

                def pr(c):
                    with CTX.pinned(k, n, to):
                        r = tob(s.pred(c))
                    return _bren(r, ki, to)
                return Filt(b, pr)
            raise Unsupported("rename of a space")
        f = x._snap()

        def g(*c):
            # the element at the generic iteration, evaluated where that iteration is `to`
            with CTX.pinned(k, n, to):
                r = f(*c)
            return _subst_any(r, ki, to)
        return T([sp(s) for s in x.spaces], g, x.kind)
    if isinstance(x, SymStr):
        from lumver.seq import NameAtom
        return SymStr([p if isinstance(p, str) else NameAtom(p.lst, subst(p.k, {ki: to})) for p in x.parts])
    if isinstance(x, SymSeq) or isinstance(x, SList) and x.segs is not None:
        s = as_seq(x)

        def rg(g):
            def h(j):
                with CTX.pinned(k, n, to):
                    y = g(j)
                return rename(y, k, n, to)
            return h
        return SymSeq([("lit", [rename(y, k, n, to) for y in g[1]]) if g[0] == "lit" else
                       (g[0], subst(g[1], {ki: to}), rg(g[2])) for g in s.segs])
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[rename(y, k, n, to) for y in x])
    if isinstance(x, (list, tuple)):
        r = [rename(y, k, n, to) for y in x]
        return tuple(r) if isinstance(x, tuple) else SList(r)
    if isinstance(x, dict):
        return {a: rename(v, k, n, to) for a, v in x.items()}
    if isinstance(x, (int, float, str, bool, type(None))) or x is _MISSING:
        return x
    if hasattr(x, "__sym_rename__"):
        return x.__sym_rename__(k, n, to)
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        r = copy.copy(x)
        for f in dataclasses.fields(x):
            object.__setattr__(r, f.name, rename(getattr(x, f.name), k, n, to))
        return r
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return np.array([rename(y, k, n, to) for y in x.ravel()] + [None], object)[:-1].reshape(x.shape)
        return x
    raise Unsupported(f"value of type {type(x).__name__} built in a symbolic loop")


def _subst_any(v, ki, to):
    if isinstance(v, P):
        return subst(v, {ki: to})
    if isinstance(v, B):
        return _bren(v, ki, to)
    return v


def unwrap_missing(v, cur):
    return cur if v is _MISSING else v


_OPS = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv,
        "FloorDiv": operator.floordiv, "Mod": operator.mod, "Pow": operator.pow,
        "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor, "MatMult": operator.matmul}
_IOPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv,
         "FloorDiv": operator.ifloordiv, "Mod": operator.imod, "Pow": operator.ipow,
         "BitAnd": operator.iand, "BitOr": operator.ior, "BitXor": operator.ixor, "MatMult": operator.imatmul}


def augsub(a, k, v, op):
    """a[k] op= v"""
    if isinstance(a, T):
        a[k] = _OPS[op](a[k], v)
    else:
        a[k] = _IOPS[op](a[k], v)


def bi(name, current):
    """The builtin `name`, unless the module rebinds that name."""
    return CALLS[name] if current is getattr(builtins, name) else current


def frame(loc, names):
    return {n: loc[n] for n in names if n in loc}


def concrete_iter(it):
    if isinstance(it, (SymSeq, SymRange, SymZip)):
        return iter(as_seq(it).items())
    if hasattr(it, "__sym_iter__") and not isinstance(it, (dict, list)):
        return iter(it.__sym_iter__().items())
    return it


def loop_exit(what):
    raise Unsupported(f"{what} inside a loop of symbolic length")


def unpack(shape, e):
    out = []

    def go(i, e):
        # shape[i] is 'n' or '('
        if shape[i] == "n":
            out.append(e)
            return i + 1
        items = list(e)
        i += 1
        j = 0
        while shape[i] != ")":
            if j >= builtins.len(items):
                raise ValueError("not enough values to unpack")
            i = go(i, items[j])
            j += 1
        if j != builtins.len(items):
            raise ValueError("too many values to unpack")
        return i + 1
    go(0, e)
    return out


ENTERED = set()


def enter(q):
    ENTERED.add(q)


def attr_written():
    if LOOPS:
        raise Unsupported("attribute assignment inside a symbolic loop")


def setsub(a, k, v):
    """a[k] = v"""
    if hasattr(a, "__sym_set__"):
        return a.__sym_set__(k, v)
    if LOOPS and not isinstance(a, (T, SList)):
        import numpy as np
        if not (isinstance(a, (dict, np.ndarray)) and False):
            raise Unsupported("item assignment to an outer container inside a symbolic loop")
    import numpy as np
    if isinstance(a, np.ndarray) and a.dtype != object and _has_sym(v):
        raise Unsupported("symbolic value stored in a numeric array")
    a[k] = v


def _has_sym(v):
    from lumver import symnp
    return symnp.symbolic(v)


def isin_(x, c):
    if isinstance(c, (SymSeq, SymMap)) or isinstance(c, SList) or isinstance(c, SDict) and c.sym:
        return x in c
    if isinstance(x, SymStr) and isinstance(c, (list, tuple, set, dict)):
        return SymSeq([("lit", list(c))]).find(x) is not None
    if isinstance(c, T) and isinstance(x, (P, int)):
        from lumver.symnp import contains
        return contains(c, x)
    if isinstance(x, P) and isinstance(c, (list, tuple)):
        return SymSeq([("lit", list(c))]).find(x) is not None
    return x in c


def notin_(x, c):
    return not isin_(x, c)

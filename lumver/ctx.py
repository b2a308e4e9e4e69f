"""Proof context: bounds of symbols, facts, path exploration, obligations, back ends."""
import contextlib
import time
from fractions import Fraction

STATS = {"ring": 0, "endpoint": 0, "z3": 0, "z3_time": 0.0, "cvc5": 0, "paths": 0}


class PathEnd(Exception):
    pass


class Infeasible(Exception):
    pass


class Obligation:
    def __init__(self, name, status, backend, detail="", path=""):
        self.name = name
        self.status = status      # proved / failed / unsupported
        self.backend = backend
        self.detail = detail
        self.path = path

    def as_dict(self):
        return dict(name=self.name, status=self.status, backend=self.backend,
                    detail=self.detail, path=self.path)


class Ctx:
    def __init__(self):
        self.reset()
        self.obligations = []
        self.assumptions = []
        self.use_cvc5 = False

    def reset(self):
        self.bounds = {}       # atom id -> (lo P|None, hi P|None), inclusive
        self.read_bounds = {}  # array name -> function(idx tuple)->(lo,hi)
        self.facts = []        # B
        self.subs = {}         # solved equalities: atom id -> P
        self.decisions = []
        self.pos = 0
        self.pending = None
        self.local = []        # stack of local explorers (loop bodies, lambdas)
        self.prefix = ""
        self._cache = {}
        self.quants = {}
        self.injective = set()  # arrays of pairwise distinct positions

    # ---------------------------------------------------------------- symbols
    def size(self, name, lo=1):
        from lumver import terms as t
        p = t.sym(name, "int")
        self.bounds[t.vid(p)] = (t.const(lo), None)
        self._cache.clear()
        return p

    def index(self, name, n):
        """Fresh universally quantified index 0 <= v < n."""
        from lumver import terms as t
        if self.subs and not (t.subst(t.lift(n), self.subs) - 1).d:
            return t.const(0)
        p = t.fresh(name, "int")
        self.bounds[t.vid(p)] = (t.const(0), t.lift(n) - 1)
        return p

    def bound(self, p, lo=None, hi=None):
        from lumver import terms as t
        self.bounds[t.vid(p)] = (None if lo is None else t.lift(lo), None if hi is None else t.lift(hi))
        self._cache.clear()

    def array_bounds(self, name, f):
        self.read_bounds[name] = f

    def bounded_ids(self):
        return {i for i, (lo, hi) in self.bounds.items() if lo is not None and hi is not None}

    def get_bounds(self, a):
        from lumver import terms as t
        b = self.bounds.get(a.id)
        if b is None and a.kind == "iv":
            b = (t.const(0), t.const(1))
        if b is None and a.kind == "read":
            f = self.read_bounds.get(a.name)
            if f is not None:
                b = f(*a.meta[0])
        if b is None and a.kind == "sum":
            vs, body = a.meta
            with self.local_vars(vs):
                if self._ge0(body, 2):
                    b = (t.const(0), None)
        if b is None and a.kind == "fn" and a.name in ("abs", "sqrt", "exp"):
            b = (t.const(0), None)
        return b or (None, None)

    @contextlib.contextmanager
    def local_vars(self, vs):
        saved = {}
        from lumver import terms as t
        ids = []
        for v, n in vs:
            i = t.vid(v)
            saved[i] = self.bounds.get(i)
            ids.append(i)
            self.bounds[i] = (t.const(0), t.lift(n) - 1)
        c, self._cache = self._cache, {}
        try:
            yield
        finally:
            for i in ids:
                if saved[i] is None:
                    self.bounds.pop(i, None)
                else:
                    self.bounds[i] = saved[i]
            self._cache = c

    @contextlib.contextmanager
    def assuming(self, *bs):
        n = len(self.facts)
        sb = dict(self.bounds)
        ss = dict(self.subs)
        c, self._cache = self._cache, {}
        for b in bs:
            self.assume(b)
        try:
            yield
        finally:
            del self.facts[n:]
            self.bounds = sb
            self.subs = ss
            self._cache = c

    @contextlib.contextmanager
    def pinned(self, k, n, to):
        """Reason about the generic index k as if it were `to`."""
        from lumver import terms as t
        ki = t.vid(k)
        to = t.lift(to)
        if ki in to.fv:
            raise t.Unsupported("generic index renamed to itself")
        ss = dict(self.subs)
        sb = self.bounds.get(ki)
        c, self._cache = self._cache, {}
        self.subs = {a: t.subst(x, {ki: to}) for a, x in self.subs.items()}
        self.subs[ki] = t.subst(to, self.subs) if self.subs else to
        self.bounds[ki] = (t.const(0), t.lift(n) - 1)
        try:
            yield
        finally:
            extra = {a: x for a, x in self.subs.items() if a not in ss and a != ki}
            self.subs = {**ss, **extra}
            if sb is None:
                self.bounds.pop(ki, None)
            else:
                self.bounds[ki] = sb
            self._cache = c if not extra else {}

    def assume(self, b):
        from lumver import terms as t
        b = t.tob(b)
        self._cache = {}
        if b.kind == "const":
            if not b.val:
                raise Infeasible()
            return
        if b.kind == "and":
            for x in b.args:
                self.assume(x)
            return
        self.facts.append(b)
        if b.kind == "ge0":
            # tighten a bound when linear with unit coefficient
            p = b.args[0]
            for i in list(p.fv):
                if i not in self.bounds:
                    continue
                v = t.apoly(t.ATOMS[i])
                co = t._poly_in(p, v)
                if co is None or set(co) - {0, 1} or 1 not in co or not co[1].is_const():
                    continue
                c = co[1].const()
                e = co.get(0, t.const(0))
                lo, hi = self.bounds[i]
                if c == 1:
                    nl = -e
                    if self._acyclic(i, nl) and (lo is None or self.prove(t.ge0(nl - lo))):
                        self.bounds[i] = (nl, hi)
                elif c == -1:
                    nh = e
                    if self._acyclic(i, nh) and (hi is None or self.prove(t.ge0(hi - nh))):
                        self.bounds[i] = (lo, nh)
                lo, hi = self.bounds[i]
                if lo is not None and hi is not None and i not in self.subs and t.ATOMS[i].kind == "sym":
                    lo2 = t.subst(lo, self.subs)
                    hi2 = t.subst(hi, self.subs)
                    if not (lo2 - hi2).d and i not in lo2.fv:
                        self.subs = {k: t.subst(x, {i: lo2}) for k, x in self.subs.items()}
                        self.subs[i] = lo2
            self._pin_to_end(p)
            nk = t.ge0(-p).key
            if any(f.key == nk for f in self.facts):
                self.assume(t.eq(p, t.const(0)))
            else:
                self._squeezed(b)
        elif b.kind == "eq0":
            p = b.args[0]
            best = None
            for i in sorted(p.fv, key=lambda i: -i):
                v = t.apoly(t.ATOMS[i])
                if t.ATOMS[i].kind != "sym":
                    continue
                co = t._poly_in(p, v)
                if co is None or set(co) - {0, 1} or 1 not in co or not co[1].is_const():
                    continue
                if abs(co[1].const()) != 1 and v.sort == "int":
                    continue
                best = (i, co)
                break
            if best:
                i, co = best
                sol = -co.get(0, t.const(0)) * t.const(Fraction(1) / co[1].const())
                self.subs = {k: t.subst(x, {i: sol}) for k, x in self.subs.items()}
                self.subs[i] = sol
                self._collapse()
                self._squeezed(*self.facts)
                # the bounds the variable had are bounds on its solution
                lo, hi = self.bounds.get(i, (None, None))
                if len(sol.fv) == 1 and len(sol.d) <= 2:
                    for d in (None if lo is None else sol - lo, None if hi is None else hi - sol):
                        if d is not None and len(d.fv) == 1:
                            self.assume(t.ge0(d))
            else:
                # c*v + e == 0 with c nonzero and e a multiple of c
                p = t.subst(p, self.subs)
                for i in sorted(p.fv, key=lambda i: -i):
                    v = t.apoly(t.ATOMS[i])
                    if t.ATOMS[i].kind != "sym" or v.sort != "int":
                        continue
                    co = t._poly_in(p, v)
                    if co is None or set(co) - {0, 1} or 1 not in co or co[1].is_const():
                        continue
                    c = co[1]
                    if not (self.prove(t.ge0(c - 1), False) or self.prove(t.ge0(-c - 1), False)):
                        continue
                    q, r = t.divide(-co.get(0, t.const(0)), c)
                    if q is not None and not r.d and i not in q.fv:
                        self.assume(t.eq(v, q))
                        break

    def _collapse(self):
        """Indices whose range has shrunk to one value."""
        from lumver import terms as t
        again = True
        while again:
            again = False
            for i, (lo, hi) in list(self.bounds.items()):
                if i in self.subs or lo is None or hi is None or t.ATOMS[i].kind != "sym":
                    continue
                lo2, hi2 = t.subst(lo, self.subs), t.subst(hi, self.subs)
                if not (lo2 - hi2).d and i not in lo2.fv:
                    self.subs = {k: t.subst(x, {i: lo2}) for k, x in self.subs.items()}
                    self.subs[i] = lo2
                    again = True

    def _squeezed(self, *facts):
        """A fact v - c >= 0 or c - v >= 0 that leaves v no other value."""
        from lumver import terms as t
        for f in facts:
            if f.kind != "ge0":
                continue
            p = t.subst(f.args[0], self.subs)
            if len(p.fv) != 1 or not p.d or len(p.d) > 2:
                continue
            i, = p.fv
            v = t.apoly(t.ATOMS[i])
            co = t._poly_in(p, v)
            if (t.ATOMS[i].kind != "sym" or v.sort != "int" or co is None or set(co) - {0, 1}
                    or not co[1].is_const() or abs(co[1].const()) != 1):
                continue
            if self.prove(t.ge0(-p), False):
                self.assume(t.eq(p, t.const(0)))

    def _pin_to_end(self, p):
        """p >= 0 with p = e - c*v, c > 0 symbolic, may leave v only its lower bound (or upper, with p = e + c*v)."""
        from lumver import terms as t
        p = t.subst(p, self.subs)
        for i in sorted(p.fv):
            if i in self.subs or t.ATOMS[i].kind != "sym" or t.ATOMS[i].sort != "int":
                continue
            lo, hi = self.bounds.get(i, (None, None))
            co = t._poly_in(p, t.apoly(t.ATOMS[i]))
            if co is None or set(co) - {0, 1} or 1 not in co or co[1].is_const():
                continue
            c, e = co[1], co.get(0, t.const(0))
            if lo is not None and self.prove(t.ge0(-c - 1), False):
                if self.prove(t.ge0(-1 - (e + c * (lo + 1))), False):
                    self.assume(t.eq(t.apoly(t.ATOMS[i]), lo))
                    return
            if hi is not None and self.prove(t.ge0(c - 1), False):
                if self.prove(t.ge0(-1 - (e + c * (hi - 1))), False):
                    self.assume(t.eq(t.apoly(t.ATOMS[i]), hi))
                    return

    def _acyclic(self, i, p):
        from lumver import terms as t
        # bound p of atom i must not (transitively) depend on i
        seen = set()
        todo = list(p.fv)
        while todo:
            j = todo.pop()
            if j == i:
                return False
            if j in seen:
                continue
            seen.add(j)
            lo, hi = self.bounds.get(j, (None, None))
            for x in (lo, hi):
                if x is not None:
                    todo.extend(x.fv)
        return True

    # ---------------------------------------------------------------- proving
    def norm(self, p):
        from lumver import terms as t
        return t.subst(p, self.subs) if self.subs else p

    def prove(self, b, z3=True):
        from lumver import terms as t
        b = t.tob(b)
        if b.kind == "const":
            return b.val
        k = (b.key, z3)
        r = self._cache.get(k)
        if r is None:
            r = self._prove(b, z3)
            self._cache[k] = r
        return r

    def _prove(self, b, z3):
        from lumver import terms as t
        for f in self.facts:
            if f.key == b.key:
                return True
        if b.kind == "and":
            return all(self.prove(x, z3) for x in b.args)
        if b.kind == "or":
            if any(self.prove(x, z3) for x in b.args):
                return True
            return z3 and self.z3_prove(b)
        if self.subs:
            b2 = t.bsubst(b, self.subs)
            if b2.key != b.key:
                return self.prove(b2, z3)
        if b.kind == "const":
            return b.val
        if b.kind == "ge0":
            p = b.args[0]
            if self._ge0(p, 6):
                STATS["endpoint"] += 1
                return True
            return z3 and self.z3_prove(b)
        if b.kind == "eq0":
            if self.is_zero(b.args[0]):
                STATS["ring"] += 1
                return True
            p = b.args[0]
            if self._ge0(p, 4) and self._ge0(-p, 4):
                return True
            for tail in (True, False):
                q = t.peel_sums(self.norm(p), tail)
                if q is None:
                    break
                if self.is_zero(q):
                    STATS["ring"] += 1
                    return True
            return z3 and self.z3_prove(b)
        if b.kind == "not":
            x = b.args[0]
            if x.kind == "eq0":
                p = x.args[0]
                if p.sort == "int":
                    if self._ge0(p - 1, 5) or self._ge0(-p - 1, 5):
                        STATS["endpoint"] += 1
                        return True
                sp = t.split_eq(p)
                if sp is not None and any(self.prove(t.bnot(t.eq0(q)), False) for q in sp):
                    return True
            return z3 and self.z3_prove(b)
        return z3 and self.z3_prove(b)

    def is_zero(self, p):
        """p == 0 identically (after clearing denominators)."""
        from lumver import terms as t
        p = self.norm(p)
        for _ in range(12):
            if not p.d:
                return True
            invs = {}
            negs = {}
            for m in p.d:
                for a, e in m:
                    if t.ATOMS[a].kind == "inv":
                        invs[a] = max(invs.get(a, 0), e)
                    elif e < 0:
                        negs[a] = min(negs.get(a, 0), e)
            if not invs and not negs:
                break
            if negs:
                p = p * t.P({tuple(sorted((a, -e) for a, e in negs.items())): 1}, "real")
                continue
            # clear the newest inverse first (its polynomial may contain older ones)
            a = max(invs)
            k = invs[a]
            q = t.ATOMS[a].meta
            acc = t.const(0, "real")
            qp = [t.const(1, "real")]
            for _i in range(k):
                qp.append(qp[-1] * q)
            for m, c in p.d.items():
                d = dict(m)
                e = d.pop(a, 0)
                acc = acc + t.P({tuple(sorted(d.items())): c}, "real") * qp[k - e]
            p = acc
        return not p.d

    def merge_functions(self, p):
        """Identify applications of one function whose arguments are equal rational expressions."""
        from lumver import terms as t
        atoms = {}

        def collect(q):
            for m in q.d:
                for a, _ in m:
                    if a in atoms:
                        continue
                    at = t.ATOMS[a]
                    if at.kind == "fn":
                        for x in at.meta:
                            collect(x)
                    elif at.kind == "inv":
                        collect(at.meta)
                    elif at.kind == "read":
                        for x in at.meta[0]:
                            collect(x)
                    elif at.kind != "sym":
                        continue
                    atoms[a] = at
        collect(p)
        env, reps = {}, {}
        for a in sorted(atoms):
            at = atoms[a]
            if at.kind == "sym":
                continue
            if at.kind == "inv":
                q = t.replace_atoms(at.meta, env)
                if not q.same(at.meta):
                    env[a] = t.inverse(q)
                continue
            old = at.meta if at.kind == "fn" else at.meta[0]
            args = [t.replace_atoms(x, env) for x in old]
            hit = None
            for b, bargs in reps.get((at.kind, at.name, len(args)), ()):
                if all(self.is_zero(x - y) for x, y in zip(args, bargs)):
                    hit = b
                elif at.kind == "fn" and len(args) == 1 and self.is_zero(args[0] + bargs[0]):
                    hit = -b if at.name in t._ODD else b if at.name in t._EVEN else None
                if hit is not None:
                    break
            if hit is None:
                if any(not x.same(y) for x, y in zip(args, old)):
                    hit = t.fn(at.name, *args) if at.kind == "fn" else t.read(at.name, args, at.sort, at.meta[1])
                    env[a] = hit
                else:
                    hit = t.apoly(at)
                reps.setdefault((at.kind, at.name, len(args)), []).append((hit, args))
            else:
                env[a] = hit
        return t.replace_atoms(p, env)

    def _ge0(self, p, depth):
        from lumver import terms as t
        if p.is_const():
            return p.const() >= 0
        if self._trivial_ge0(p):
            return True
        if depth <= 0:
            return False
        # endpoint elimination of a variable/atom occurring linearly with known bounds
        cands = []
        atoms = {a for m in p.d for a, _ in m}
        for a in atoms:
            at = t.ATOMS[a]
            lo, hi = self.get_bounds(at)
            if lo is None and hi is None:
                continue
            lin = True
            for m in p.d:
                for b, e in m:
                    if b == a and e != 1:
                        lin = False
                    if b != a and a in t.ATOMS[b].fv and at.kind == "sym":
                        lin = False
            if not lin:
                continue
            # other candidates' bounds mentioning a must be eliminated first
            cands.append((at, lo, hi))
        def dependents(at):
            return sum(1 for o, lo, hi in cands if o is not at and any(
                x is not None and at.id in {b for m in x.d for b, _ in m} for x in (lo, hi)))
        cands.sort(key=lambda c: (dependents(c[0]), c[1] is None or c[2] is None, -c[0].id))
        for at, lo, hi in cands:
            # p = c*a + r
            c = t.P({tuple((b, e) for b, e in m if b != at.id): k for m, k in p.d.items()
                     if any(b == at.id for b, _ in m)}, p.sort)
            r = t.P({m: k for m, k in p.d.items() if not any(b == at.id for b, _ in m)}, p.sort)
            if lo is not None and hi is not None:
                if self._ge0(c * lo + r, depth - 1) and self._ge0(c * hi + r, depth - 1):
                    return True
            elif lo is not None:
                if self._ge0(c, depth - 1) and self._ge0(c * lo + r, depth - 1):
                    return True
            elif hi is not None:
                if self._ge0(-c, depth - 1) and self._ge0(c * hi + r, depth - 1):
                    return True
        # shift positivity
        env = {}
        for a in atoms:
            at = t.ATOMS[a]
            if at.kind != "sym":
                continue
            lo, hi = self.get_bounds(at)
            if lo is not None and lo.is_const() and lo.const() != 0:
                w = t.sym(f"shift<{at.name}>", at.sort)
                self.bounds[t.vid(w)] = (t.const(0), None)
                env[a] = w + lo
        if env and self._trivial_ge0(t.subst(p, env)):
            return True
        # subtract a known fact
        for f in self.facts:
            if f.kind == "ge0" and depth >= 3:
                q = p - f.args[0]
                if len(q.d) <= len(p.d) and self._ge0(q, depth - 3):
                    return True
        return False

    def _trivial_ge0(self, p):
        from lumver import terms as t
        for m, c in p.d.items():
            if c < 0:
                return False
            for a, e in m:
                if e % 2:
                    lo, _ = self.get_bounds(t.ATOMS[a])
                    if lo is None or not (lo.is_const() and lo.const() >= 0):
                        if t.ATOMS[a].kind == "inv":
                            if self._ge0(t.ATOMS[a].meta, 2):
                                continue
                        return False
        return True

    # ------------------------------------------------------------------- SMT
    def z3_prove(self, b, timeout=4000):
        from lumver import smt
        t0 = time.time()
        STATS["z3"] += 1
        try:
            return smt.prove(self, b, timeout)
        finally:
            STATS["z3_time"] += time.time() - t0

    # ------------------------------------------------------------------ paths
    def decide(self, b):
        """Called by bool(symbolic condition)."""
        from lumver import terms as t
        if self.subs:
            b = t.bsubst(b, self.subs)
            if b.kind == "const":
                return b.val
        if self.local:
            ex = self.local[-1]
            return ex.decide(b)
        if self.prove(b):
            return True
        if self.prove(t.bnot(b)):
            return False
        if self.pending is None:
            raise t.Unsupported(f"undetermined condition outside exploration: {b}")
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos]
        else:
            v = True
            self.decisions.append(v)
            self.pending.append(self.decisions[:-1] + [False])
            if len(self.pending) > 4000:
                raise t.ProofAbort("too many paths")
        self.pos += 1
        self.assume(b if v else t.bnot(b))
        return v

    def choose(self, n):
        """Nondeterministic choice 0..n-1 (every alternative is explored)."""
        if n == 1:
            return 0
        if self.pending is None:
            raise RuntimeError("choose outside exploration")
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos]
        else:
            v = 0
            for k in range(1, n):
                self.pending.append(self.decisions + [k])
            self.decisions.append(0)
        self.pos += 1
        return v

    def explore(self, setup, run, max_paths=20000):
        """Run `run(setup())` once per feasible path.  Yields nothing; obligations are
        recorded by require().  setup() re-creates the whole symbolic state."""
        pending = [[]]
        n = 0
        while pending:
            dec = pending.pop()
            self.reset()
            self.decisions = list(dec)
            self.pending = pending
            n += 1
            STATS["paths"] += 1
            if n > max_paths:
                raise RuntimeError("path explosion")
            try:
                run()
            except Infeasible:
                pass
            self.pending = None
        return n

    def infeasible(self):
        """True when the assumptions of this path are contradictory."""
        from lumver import smt
        try:
            return str(smt.satisfiable(self, 2000)) == "unsat"
        except Exception:
            return False

    def path_str(self):
        return " & ".join(map(repr, self.facts))[:2000]

    # ------------------------------------------------------------ obligations
    def require(self, name, cond, detail=""):
        from lumver import terms as t
        c = t.tob(cond)
        s0 = dict(STATS)
        try:
            ok = self.prove(c)
        except t.Unsupported as e:
            self.obligations.append(Obligation(name, "unsupported", "-", str(e), self.path_str()))
            return False
        be = "z3" if STATS["z3"] > s0["z3"] else ("endpoint" if STATS["endpoint"] > s0["endpoint"] else "ring")
        self.obligations.append(Obligation(
            name, "proved" if ok else "failed", be,
            "" if ok else f"cannot prove {c!r} {detail}"[:1500], "" if ok else self.path_str()))
        return ok

    def require_eq(self, name, a, b, detail=""):
        from lumver import terms as t
        if a is b:
            return self.require(name, True)
        la, lb = t.lift(a), t.lift(b)
        if la is None or lb is None:
            ok = (la is None and lb is None and type(a) is type(b) and a == b)
            return self.require(name, t.tob(ok), f"{a!r} vs {b!r}")
        if la.sort == "real" or lb.sort == "real":
            d = la - lb
            if d.d and not self.prove(t.eq(la, lb), False) and self.is_zero(self.merge_functions(d)):
                STATS["ring"] += 1
                return self.require(name, t.TRUE)
        ok = self.require(name, t.eq(la, lb), f"  lhs={t.pstr(self.norm(la))}  rhs={t.pstr(self.norm(lb))} {detail}")
        return ok

    def fail(self, name, detail, status="failed"):
        self.obligations.append(Obligation(name, status, "-", detail[:1500], self.path_str()))


CTX = Ctx()

"""z3 back end for the conditions the built-in procedures do not settle."""
from fractions import Fraction

import z3


def _tr(ctx, p, env, side, t):
    terms = []
    for m, c in p.d.items():
        f = []
        for a, e in m:
            x = _atom(ctx, t.ATOMS[a], env, side, t)
            if p.sort == "real" and x.sort() == z3.IntSort():
                x = z3.ToReal(x)
            if e > 0:
                f += [x] * e
            else:
                if x.sort() == z3.IntSort():
                    x = z3.ToReal(x)
                f += [1 / x] * (-e)
        c = Fraction(c)
        cv = z3.RealVal(str(c)) if (p.sort == "real" or c.denominator != 1) else z3.IntVal(int(c))
        x = cv
        for y in f:
            if y.sort() != x.sort():
                x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
            x = x * y
        terms.append(x)
    if not terms:
        return z3.RealVal(0) if p.sort == "real" else z3.IntVal(0)
    s = terms[0]
    for y in terms[1:]:
        if y.sort() != s.sort():
            s = z3.ToReal(s) if s.sort() == z3.IntSort() else s
            y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
        s = s + y
    return s


def _atom(ctx, a, env, side, t):
    if a.id in env:
        return env[a.id]
    mk = z3.Int if a.sort == "int" else z3.Real
    x = mk(f"a{a.id}")
    env[a.id] = x
    lo, hi = ctx.get_bounds(a)
    if lo is not None:
        side.append(x >= _tr(ctx, lo, env, side, t))
    if hi is not None:
        side.append(x <= _tr(ctx, hi, env, side, t))
    if a.kind == "fn":
        arg = _tr(ctx, a.meta[0], env, side, t)
        if arg.sort() == z3.IntSort():
            arg = z3.ToReal(arg)
        if a.name == "abs":
            side.append(x == z3.If(arg >= 0, arg, -arg))
        elif a.name == "sqrt":
            side.append(x >= 0)
            side.append(z3.Implies(arg >= 0, x * x == arg))
        elif a.name == "sign":
            side.append(x == z3.If(arg > 0, 1, z3.If(arg < 0, -1, 0)) * z3.RealVal(1))
        elif a.name in ("sin", "cos", "tanh"):
            side += [x <= 1, x >= -1]
            if a.name == "tanh":
                side += [z3.Implies(arg > 0, x > 0), z3.Implies(arg == 0, x == 0),
                         z3.Implies(arg < 0, x < 0)]
        elif a.name == "exp":
            side.append(x > 0)
        elif a.name == "arctan":
            side += [z3.Implies(arg > 0, x > 0), z3.Implies(arg == 0, x == 0),
                     z3.Implies(arg < 0, x < 0)]
    elif a.kind == "inv":
        q = _tr(ctx, a.meta, env, side, t)
        side.append(z3.Implies(q != 0, x * q == 1))
    elif a.kind == "iv":
        side.append(x == z3.If(cond(ctx, a.meta, env, side, t), 1, 0))
    return x


def cond(ctx, b, env, side, t):
    if b.kind == "const":
        return z3.BoolVal(b.val)
    if b.kind == "ge0":
        return _tr(ctx, b.args[0], env, side, t) >= 0
    if b.kind == "eq0":
        return _tr(ctx, b.args[0], env, side, t) == 0
    if b.kind == "not":
        return z3.Not(cond(ctx, b.args[0], env, side, t))
    if b.kind == "and":
        return z3.And(*[cond(ctx, x, env, side, t) for x in b.args])
    if b.kind == "or":
        return z3.Or(*[cond(ctx, x, env, side, t) for x in b.args])
    if b.kind == "pred":
        return z3.Bool(repr(b.key))
    raise ValueError(b.kind)


def normalized(ctx, t):
    """The facts, and their forms after the known equalities."""
    out = list(ctx.facts)
    if ctx.subs:
        for f in ctx.facts:
            g = t.bsubst(f, ctx.subs)
            if g.key != f.key and g.kind != "const":
                out.append(g)
            elif g.kind == "const" and not g.val:
                out.append(g)
    return out


def query(ctx, b):
    from lumver import terms as t
    env, side = {}, []
    goal = cond(ctx, b, env, side, t)
    facts = [cond(ctx, f, env, side, t) for f in normalized(ctx, t)]
    return goal, facts + side


def prove(ctx, b, timeout):
    goal, hyp = query(ctx, b)
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*hyp)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat and ctx.use_cvc5:
        cross_check(s)
    return r == z3.unsat


def satisfiable(ctx, timeout=4000):
    from lumver import terms as t
    env, side = {}, []
    facts = [cond(ctx, f, env, side, t) for f in normalized(ctx, t)]
    # size symbols and their bounds, even when no fact mentions them
    for i in list(ctx.bounds):
        _atom(ctx, t.ATOMS[i], env, side, t)
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*facts, *side)
    return s.check()


def cross_check(s):
    """Second opinion by cvc5 on the same SMT-LIB query (thorough tier)."""
    from lumver.ctx import STATS
    import cvc5
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        sol = cvc5.Solver()
        sol.setOption("tlimit-per", "4000")
        p = cvc5.InputParser(sol)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        res = ""
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            res += str(c.invoke(sol, sm))
        if "unsat" in res:
            STATS["cvc5"] += 1
        elif "sat" in res and "unsat" not in res:
            raise RuntimeError("cvc5 disagrees with z3: " + txt[:2000])
    except (ImportError, AttributeError):
        pass

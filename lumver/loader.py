"""Import hook: compiles lumos modules from /repo's current source with a mechanical rewriting.

What the rewriting does (nothing else of the source is touched):
  * calls of builtins (len, range, sum, zip, ...) go to lumver.rt, which falls back to the builtin
    whenever no argument is symbolic;
  * list displays / comprehensions / f-strings / dict comprehensions over symbolic lists are built
    by lumver.rt;
  * a `for` statement whose iterable has a symbolic length is executed by lumver.rt.Loop;
  * subscript augmented assignment a[k] op= v becomes a[k] = a[k] op v (the same meaning);
  * after the module body ran, global names bound to numpy / jax.numpy become proxies that apply the
    numpy contract (lumver.symnp) when an argument is symbolic, and the real function otherwise.
"""
import ast
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("LUMVER_REPO", "/repo")
SOURCES = {}       # module -> (path, sha256)
R = "lv_rt_"


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _attr(f):
    return ast.Attribute(value=_name(R), attr=f, ctx=ast.Load())


def _call(f, args, kw=()):
    return ast.Call(func=_attr(f), args=list(args), keywords=list(kw))


def _stars(n):
    """The elements of a display with starred parts, as (starred?, value) pairs."""
    return ast.Tuple([ast.Tuple([ast.Constant(isinstance(x, ast.Starred)), x.value if isinstance(x, ast.Starred) else x],
                                ast.Load()) for x in n.elts], ast.Load())


class _Stores(ast.NodeVisitor):
    """Names a loop body binds (not descending into nested scopes)."""

    def __init__(self):
        self.names = []
        self.ctl = []

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store) and n.id not in self.names:
            self.names.append(n.id)

    def visit_FunctionDef(self, n):
        if n.name not in self.names:
            self.names.append(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ClassDef(self, n):
        pass


class _Ctl(ast.NodeTransformer):
    """break / return inside a symbolic loop body leave the supported fragment."""

    def __init__(self):
        self.depth = 0

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    visit_While = visit_For

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n

    def visit_Break(self, n):
        if self.depth == 0:
            return ast.copy_location(ast.Expr(_call("loop_exit", [ast.Constant("break")])), n)
        return n

    def visit_Return(self, n):
        return ast.copy_location(ast.Expr(_call("loop_exit", [ast.Constant("return")])), n)


class Rewriter(ast.NodeTransformer):
    def __init__(self, src_builtins, module=""):
        self.qual = [module]
        self.calls = src_builtins
        self.k = 0
        self.infunc = 0
        self.shadow = [set()]

    def tmp(self, p):
        self.k += 1
        return f"lv_{p}{self.k}_"

    def visit_FunctionDef(self, n):
        ret, n.returns = n.returns, None
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        decs, n.decorator_list = n.decorator_list, []
        self.infunc += 1
        self.generic_visit(n)
        self.infunc -= 1
        n.returns = ret
        n.decorator_list = decs
        q = ".".join(self.qual + [n.name])
        pos = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(pos, ast.Expr(_call("enter", [ast.Constant(q)])))
        if n.args.kwarg is not None:
            k = n.args.kwarg.arg
            n.body.insert(pos + 1, ast.Assign([_name(k, ast.Store())], _call("kwin", [_name(k)])))
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if not self.infunc:
            return n
        t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, (ast.Tuple, ast.List)):
            at = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if at:          # a, *b, c = value
                t.elts[at[0]] = t.elts[at[0]].value
                n.value = ast.copy_location(_call("unpackstar", [n.value, ast.Constant(at[0]),
                                                                 ast.Constant(len(t.elts) - 1 - at[0])]), n.value)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(_call("setsub", [t.value, _sl(t.slice), n.value])), n)
        if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for t in n.targets for x in ast.walk(t)):
            return [n, ast.copy_location(ast.Expr(_call("attr_written", [])), n)]
        return n

    def visit_ClassDef(self, n):
        f, self.infunc = self.infunc, 0
        self.qual.append(n.name)
        self.generic_visit(n)
        self.qual.pop()
        self.infunc = f
        return n

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id == "super":
            return n
        self.generic_visit(n)
        if self.infunc and any(k.arg is None for k in n.keywords):
            if isinstance(f, ast.Name) and f.id in self.calls:
                f = ast.copy_location(_call("bi", [ast.Constant(f.id), _name(f.id)]), f)
            kws = [ast.Tuple([ast.Constant(k.arg), k.value], ast.Load()) for k in n.keywords]
            return ast.copy_location(_call("starcall", [f, ast.Tuple(n.args, ast.Load()),
                                                        ast.Tuple(kws, ast.Load())]), n)
        if isinstance(f, ast.Name) and f.id in self.calls and self.infunc:
            n.func = ast.copy_location(_call("bi", [ast.Constant(f.id), _name(f.id)]), f)
            return n
        if isinstance(f, ast.Name) and f.id == "IntEnum":
            n.func = ast.copy_location(_attr("b_IntEnum"), f)
            return n
        if isinstance(f, ast.Attribute) and f.attr == "join" and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(_call("join", [f.value] + n.args), n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.infunc:
            if any(isinstance(x, ast.Starred) for x in n.elts):
                return ast.copy_location(_call("starlist", [_stars(n)]), n)
            return ast.copy_location(_call("mklist", [n]), n)
        return n

    def visit_Tuple(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.infunc and any(isinstance(x, ast.Starred) for x in n.elts):
            return ast.copy_location(_call("startuple", [_stars(n)]), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if self.infunc and not n.keys:
            return ast.copy_location(_call("mkdict", []), n)
        return n

    def visit_Subscript(self, n):
        # type annotations such as Tuple[str, ...] are left alone by not touching slices of names
        self.generic_visit(n)
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arg(self, n):
        return n

    def _lam(self, targets, expr):
        """lambda t: expr   (a tuple target is unpacked through *)."""
        if isinstance(targets, ast.Name):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(targets.id)], kwonlyargs=[],
                                                 kw_defaults=[], defaults=[]), body=expr)
        return None

    def _unpack(self, target, expr):
        """lambda e: (lambda names: expr)(*flatten(e)) for tuple targets"""
        if isinstance(target, ast.Name):
            return self._lam(target, expr)
        names = []
        shape = self._shape(target, names)
        if shape is None:
            return None
        inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in names], kwonlyargs=[],
                                              kw_defaults=[], defaults=[]), body=expr)
        e = self.tmp("e")
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(e)], kwonlyargs=[], kw_defaults=[],
                                             defaults=[]),
                          body=ast.Call(func=inner, args=[ast.Starred(_call("unpack", [ast.Constant(shape), _name(e)]),
                                                                      ast.Load())], keywords=[]))

    def _shape(self, t, names):
        if isinstance(t, ast.Name):
            names.append(t.id)
            return "n"
        if isinstance(t, (ast.Tuple, ast.List)):
            r = []
            for x in t.elts:
                s = self._shape(x, names)
                if s is None:
                    return None
                r.append(s)
            return "(" + "".join(r) + ")"
        return None

    def _comp(self, n, elts, kind):
        if not self.infunc or any(g.is_async for g in n.generators) or _has_walrus(n):
            self.generic_visit(n)
            return n
        if len(n.generators) > 1:
            return ast.copy_location(self._nested(n.generators, elts, kind), n)
        g = n.generators[0]
        it = self.visit(g.iter)
        elts = self.visit(elts)
        ifs = [self.visit(i) for i in g.ifs]
        fn = self._unpack(g.target, elts)
        if fn is None:
            raise SyntaxError("comprehension target")
        args = [fn, it]
        if ifs:
            args.append(self._unpack(g.target, ifs[0] if len(ifs) == 1 else ast.BoolOp(ast.And(), ifs)))
        if kind == "dict":
            return ast.copy_location(_call("dictcomp", args), n)
        return ast.copy_location(_call("comp", args, [ast.keyword("kind", ast.Constant(kind))]), n)

    def _nested(self, gens, elts, kind):
        """One comprehension per `for`, the inner ones' parts one after another."""
        g = gens[0]
        it = self.visit(g.iter)
        ifs = [self.visit(i) for i in g.ifs]
        if len(gens) > 1:
            inner, f, inkind = self._nested(gens[1:], elts, kind), "flatcomp", kind
        else:
            inner, f, inkind = self.visit(elts), "comp", "list"
        fn = self._unpack(g.target, inner)
        if fn is None:
            raise SyntaxError("comprehension target")
        args = [fn, it]
        if ifs:
            args.append(self._unpack(g.target, ifs[0] if len(ifs) == 1 else ast.BoolOp(ast.And(), ifs)))
        if f == "comp" and kind == "dict":
            return _call("dictcomp", args)
        return _call(f, args, [ast.keyword("kind", ast.Constant(inkind))])

    def visit_ListComp(self, n):
        return self._comp(n, n.elt, "list")

    def visit_GeneratorExp(self, n):
        return self._comp(n, n.elt, "gen")

    def visit_SetComp(self, n):
        return self._comp(n, n.elt, "set")

    def visit_DictComp(self, n):
        return self._comp(n, ast.Tuple([n.key, n.value], ast.Load()), "dict")

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant("") if v.format_spec is None else v.format_spec
                parts.append(_call("fmt", [self.visit(v.value), ast.Constant(v.conversion), spec]))
        return ast.copy_location(_call("fstr", parts), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            f = "isin_" if isinstance(n.ops[0], ast.In) else "notin_"
            return ast.copy_location(_call(f, [n.left, n.comparators[0]]), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Attribute) and self.infunc:
            return [n, ast.copy_location(ast.Expr(_call("attr_written", [])), n)]
        if isinstance(n.target, ast.Subscript):
            op = type(n.op).__name__
            return [ast.copy_location(ast.Expr(_call("augsub", [n.target.value, _sl(n.target.slice), n.value,
                                                               ast.Constant(op)])), n)]
        return n

    def visit_For(self, n):
        if n.orelse or not self.infunc:
            self.generic_visit(n)
            return n
        it = self.visit(n.iter)
        st = _Stores()
        for b in n.body:
            st.visit(b)
        st.visit(n.target)
        tgt = _Stores()
        tgt.visit(n.target)
        names = [x for x in st.names if x not in tgt.names]
        body = []
        for b in n.body:
            r = self.visit(b)
            body.extend(r if isinstance(r, list) else [r])
        vit, vlp, vout = self.tmp("it"), self.tmp("lp"), self.tmp("out")
        import copy
        sbody = [_Ctl().visit(copy.deepcopy(b)) for b in body]
        allnames = ast.Tuple([ast.Constant(x) for x in names], ast.Load())

        def frame():
            return _call("frame", [ast.Call(_name("locals"), [], []), allnames])
        pre = [ast.Assign([_name(vlp, ast.Store())], _call("Loop", [_name(vit)])),
               ast.Expr(ast.Call(ast.Attribute(_name(vlp), "start", ast.Load()), [frame()], []))]
        loop_body = []
        for x in names:
            loop_body.append(ast.Assign([_name(x, ast.Store())], ast.Call(
                ast.Attribute(_name(vlp), "carried_in", ast.Load()), [ast.Constant(x)], [])))
        try_body = [ast.Assign([copy.deepcopy(n.target)], ast.Call(
            ast.Attribute(_name(vlp), "item", ast.Load()), [], []))] + sbody
        loop_body.append(ast.Try(body=try_body, handlers=[], orelse=[], finalbody=[
            ast.Expr(ast.Call(ast.Attribute(_name(vlp), "end", ast.Load()), [frame()], []))]))
        w = ast.While(test=ast.Call(ast.Attribute(_name(vlp), "step", ast.Load()), [], []), body=loop_body,
                      orelse=[])
        post = [ast.Assign([_name(vout, ast.Store())], ast.Call(
            ast.Attribute(_name(vlp), "finish", ast.Load()), [], []))]
        for x in names:
            post.append(ast.If(test=ast.Compare(ast.Constant(x), [ast.In()], [_name(vout)]),
                               body=[ast.Assign([_name(x, ast.Store())],
                                                ast.Subscript(_name(vout), ast.Constant(x), ast.Load()))],
                               orelse=[]))
        normal = ast.For(target=n.target, iter=_call("concrete_iter", [_name(vit)]), body=body, orelse=[])
        res = [ast.Assign([_name(vit, ast.Store())], it),
               ast.If(test=_call("is_sym_iter", [_name(vit)]), body=pre + [w] + post, orelse=[normal])]
        for r in res:
            ast.copy_location(r, n)
        return res


def _has_walrus(n):
    return any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n))


def _sl(s):
    if isinstance(s, ast.Slice):
        return ast.Call(_name("slice"), [s.lower or ast.Constant(None), s.upper or ast.Constant(None),
                                         s.step or ast.Constant(None)], [])
    if isinstance(s, ast.Tuple):
        return ast.Tuple([_sl(x) for x in s.elts], ast.Load())
    return s


def rewrite(src, path, module=""):
    from lumver import rt
    tree = ast.parse(src, path)
    tree = Rewriter(set(rt.CALLS), module).visit(tree)
    # the runtime is imported under a private name
    imp = ast.ImportFrom(module="lumver", names=[ast.alias("rt", R)], level=0)
    pos = 0
    while pos < len(tree.body) and (isinstance(tree.body[pos], ast.ImportFrom) and tree.body[pos].module == "__future__"
                                    or isinstance(tree.body[pos], ast.Expr) and isinstance(
                                        tree.body[pos].value, ast.Constant)):
        pos += 1
    tree.body.insert(pos, imp)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec")


PLAIN = ("lumos.numpy.casadi_numpy",)        # only imports


class Hook(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path, target=None):
        if fullname != "lumos" and not fullname.startswith("lumos."):
            return None
        rel = fullname.replace(".", "/")
        for p, pkg in ((f"{REPO}/{rel}/__init__.py", True), (f"{REPO}/{rel}.py", False)):
            if os.path.exists(p):
                spec = importlib.util.spec_from_file_location(
                    fullname, p, loader=self, submodule_search_locations=[os.path.dirname(p)] if pkg else None)
                return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        p = module.__spec__.origin
        src = open(p, encoding="utf-8").read()
        SOURCES[module.__name__] = (p, hashlib.sha256(src.encode()).hexdigest())
        if module.__name__ in PLAIN:
            exec(compile(src, p, "exec"), module.__dict__)
            return
        exec(rewrite(src, p, module.__name__), module.__dict__)
        proxify(module)


def proxify(module):
    import numpy
    import jax.numpy as jnp
    from lumver.symnp import NumpyProxy
    for k, v in list(module.__dict__.items()):
        if v is numpy or v is jnp:
            module.__dict__[k] = NumpyProxy(v)
    if module.__name__ == "lumos.numpy":
        m = module.__dict__.get("_lumos_numpy__BACKEND_MAP")
        for key, val in list(module.__dict__.items()):
            if isinstance(val, dict) and not key.startswith("__builtins"):
                for k2, v2 in list(val.items()):
                    if v2 is numpy or v2 is jnp:
                        val[k2] = NumpyProxy(v2)


_HOOK = None


def install(instrument=True):
    """Must run before any lumos import."""
    global _HOOK
    if _HOOK is None:
        for m in list(sys.modules):
            assert not m.startswith("lumos"), "lumos already imported"
        _HOOK = Hook()
        sys.meta_path.insert(0, _HOOK)

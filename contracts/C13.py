"""C13: model vectors follow the declared names; the implicit residual is (f - xdot, g - y, residuals)."""
from contracts.common import *
from lumver import rt, symnp
from lumver.seq import NameMap
import contextlib
import inspect
import logging
import os
import shutil
import tempfile
import types

import casadi

import lumos.models.base as base
import lumos.numpy as lnp
import lumos.optimal_control.nlp as nlp
from lumos.models.tree_utils import ParameterTree
from lumos.models.base import (Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io)
from lumos.models.composition import ModelMaker

logging.disable(logging.CRITICAL)
ORDERS = [("states", "inputs", "states_dot", "con_outputs"), ("states_dot", "con_outputs", "inputs", "states"),
          ("inputs", "con_outputs", "states", "states_dot")]


def star(f, *args, **maps):
    return rt.starcall(f, args, tuple((None, m) for m in maps.values()))


def sub_list(lst, of, n, n_of):
    """A list of n distinct names of the list `of` in any order."""
    CTX.array_bounds(lst, lambda k: (const(0), n_of - 1))
    CTX.injective.add(lst)
    return SymSeq([("map", n, lambda k: name_of(of, read(lst, [lift(k)], "int")))])


def digest(d, lst, n):
    return ssum(n, lambda k: d[name_of(lst, k)] * read("w_" + lst, [k]))


def leaf_class(tag):
    """A stateless submodel with symbolic names: output k = G<tag>(k, inputs)."""
    ni, no = CTX.size(f"{tag}_ni", 1), CTX.size(f"{tag}_no", 1)
    nr = CTX.size(f"{tag}_nr", 0)
    res = sub_list(f"{tag}_res", f"{tag}_out", nr, no)

    class Leaf(Model):
        def forward(self, inputs):
            x = digest(inputs, f"{tag}_in", ni)
            out = star(self.make_outputs_dict, o=NameMap(names(f"{tag}_out", no), lambda k: ufn(f"G_{tag}", k, x)))
            return ModelReturn(outputs=out, residuals={})
    Leaf.__name__ = f"Leaf_{tag}"
    model_io(inputs=names(f"{tag}_in", ni), outputs=names(f"{tag}_out", no), residuals=res)(Leaf)
    return Leaf, ni, no, nr


class Sys:
    """A state-space model with symbolic names, any order of the groups and 0-2 submodels."""

    def __init__(self, subs=0, con=True):
        n = self.n = {g: CTX.size("n_" + g, lo) for g, lo in
                      dict(states=1, inputs=0, outputs=1, con_outputs=0, residuals=0).items()}
        n["states_dot"] = n["states"]
        self.leaves = {f"s{j}": leaf_class(f"s{j}") for j in range(subs)}
        for c, *_ in self.leaves.values():
            if c.__name__ in ModelMaker._registry:
                ModelMaker._registry.pop(c.__name__)
            ModelMaker.add_to_registry(c)
        leaves = self.leaves
        order = ORDERS[CTX.choose(len(ORDERS))]
        self.order = order

        class Toy(StateSpaceModel):
            _implicit_inputs = order

            @classmethod
            def get_default_submodel_config(cls):
                return {k: v[0].__name__ for k, v in leaves.items()}

            @classmethod
            def get_default_params(cls):
                return {"p": 1.5}

            def forward(self, states, inputs, mesh):
                x = digest(states, "states", n["states"])
                u = digest(inputs, "inputs", n["inputs"])
                for k, (c, ni, no, nr) in reversed(leaves.items()):
                    star_call = NameMap(names(f"{k}_in", ni), lambda j: ufn(f"I_{k}", j, x, u))
                    self.call_submodel(k, inputs=star_call)
                f = NameMap(names("states", n["states"]), lambda k: ufn("F", k, x, u, mesh, lift(self._params["p"])))
                g = NameMap(names("outputs", n["outputs"]), lambda k: ufn("G", k, x, u, mesh, lift(self._params["p"])))
                return StateSpaceModelReturn(states_dot=star(self.make_dict, "states_dot", s=f),
                                             outputs=star(self.make_outputs_dict, o=g))
        state_space_io(states=names("states", n["states"]), inputs=names("inputs", n["inputs"]),
                       outputs=names("outputs", n["outputs"]),
                       con_outputs=sub_list("con", "outputs", n["con_outputs"], n["outputs"]),
                       residuals=sub_list("res", "outputs", n["residuals"], n["outputs"]))(Toy)
        self.model = Toy()

    def xu(self, s, u):
        """Digests of the state and input vectors."""
        return (ssum(self.n["states"], lambda k: s(k) * read("w_states", [k])),
                ssum(self.n["inputs"], lambda k: u(k) * read("w_inputs", [k])))

    def F(self, k, x, u, mesh, p=1.5):
        return ufn("F", k, x, u, mesh, lift(p))

    def G(self, k, x, u, mesh, p=1.5):
        return ufn("G", k, x, u, mesh, lift(p))

    def out_value(self, j, k, x, u):
        """Output k of submodel j."""
        c, ni, no, nr = self.leaves[j]
        y = ssum(ni, lambda q: ufn(f"I_{j}", q, x, u) * read(f"w_{j}_in", [q]))
        return ufn(f"G_{j}", k, y)


@goal("names, sizes and positions: every declared list, order of the groups and submodel")
def layout_goal():
    s = Sys(CTX.choose(3))
    m, n = s.model, s.n
    tot = {"outputs": n["outputs"], "residuals": n["residuals"]}
    starts = {k: {} for k in tot}
    for j, (c, ni, no, nr) in s.leaves.items():
        for g, q in (("outputs", no), ("residuals", nr)):
            starts[g][j] = tot[g]
            tot[g] = tot[g] + q
    for g in ("states", "inputs", "states_dot", "con_outputs"):
        tot[g] = n[g]
    for g in tot:
        CTX.require_eq(f"number of {g}", m.get_num_vars(g), tot[g])
        CTX.require_eq(f"length of {g}", rt.b_len(m.get_group_names(g)), tot[g])
    CTX.require_eq("num_states", m.num_states, n["states"])
    CTX.require_eq("num_inputs", m.num_inputs, n["inputs"])
    CTX.require_eq("num_outputs", m.num_outputs, tot["outputs"])
    CTX.require_eq("num_con_outputs", m.num_con_outputs, n["con_outputs"])
    CTX.require_eq("num_residuals", m.num_residuals, tot["residuals"])
    CTX.require_eq("num_implicit_res", m.num_implicit_res, n["states"] + n["con_outputs"] + tot["residuals"])
    off, V = {}, const(0)
    for g in s.order:
        off[g], V = V, V + n[g]
    CTX.require_eq("num_implicit_var", m.num_implicit_var, V)
    for g in s.order:
        lst = {"states_dot": "states", "con_outputs": "con"}.get(g, g)
        k = idx("k_" + g, n[g])
        nm = name_of(lst, k) if lst != "con" else name_of("outputs", read("con", [k], "int"))
        CTX.require(f"{g}: declared name", rt.val_eq(rt.as_seq(m.get_group_names(g)).get(k), nm) in (True,)
                    or CTX.prove(rt.val_eq(rt.as_seq(m.get_group_names(g)).get(k), nm)))
        CTX.require_eq(f"{g}: index", m.get_var_index(g, nm), k)
        CTX.require_eq(f"{g}: flat index", m.get_var_index_in_flat(g, nm), off[g] + k)
        t = m.get_group_indices_in_flat(g)
        shape_is(f"{g}: flat indices", t, n[g])
        CTX.require_eq(f"{g}: flat indices", elem(t, k), off[g] + k)
        expect_raises(f"{g}: unknown name", KeyError, m.get_var_index, g, "nope")
    k = idx("k_out", n["outputs"])
    CTX.require_eq("outputs: own first", m.get_var_index("outputs", name_of("outputs", k)), k)
    for j, (c, ni, no, nr) in s.leaves.items():
        k = idx("k_sub", no)
        nm = rt.fstr(j, ".", name_of(f"{j}_out", k))
        CTX.require_eq("outputs: submodel", m.get_var_index("outputs", nm), starts["outputs"][j] + k)
        if not CTX.prove(eq(nr, const(0))):
            k = idx("k_subr", nr)
            nm = rt.fstr(j, ".", name_of(f"{j}_out", read(f"{j}_res", [k], "int")))
            CTX.require_eq("residuals: submodel", m.get_var_index("residuals", nm), starts["residuals"][j] + k)


@goal("vectors and dictionaries by name: every order of the given values, missing and extra names")
def vectors():
    s = Sys()
    m, n = s.model, s.n
    g = ["states", "inputs", "outputs", "states_dot"][CTX.choose(4)]
    lst = "states" if g == "states_dot" else g
    val = lambda k: read("val", [k])
    case = CTX.choose(4)
    full = names(lst, n[g])
    if case == 0:
        maps = dict(a=NameMap(full, val))
    elif case == 1:             # an extra name is ignored
        maps = dict(a=NameMap(full + SymSeq([("lit", ["nope"])]), val))
    else:                       # the name at position h is missing
        h = idx("h", n[g])
        maps = dict(a=NameMap(full.without(name_of(lst, h)), val))
        if case == 3:
            maps["b"] = NameMap(SymSeq([("lit", ["nope"])]), val)
    if case >= 2:
        expect_raises("missing value (vector)", KeyError, star, m.make_vector, g, **maps)
        expect_raises("missing value (dictionary)", KeyError, star, m.make_dict, g, **maps)
        return
    v = star(m.make_vector, g, **maps)
    k = idx("k", n[g])
    shape_is("vector", v, n[g])
    CTX.require_eq("value", elem(v, k), val(k))
    d = star(m.make_dict, g, **maps)
    CTX.require_eq("dictionary", d[name_of(lst, k)], val(k))
    get = {"states": m.get_state, "inputs": m.get_input, "outputs": m.get_output}.get(g)
    if get:
        CTX.require_eq("value by name", get(v, name_of(lst, k)), val(k))
    c = sym("c")
    w = m.make_const_vector(g, c)
    shape_is("constant vector", w, n[g])
    CTX.require_eq("constant vector", elem(w, k), c)
    CTX.require_eq("constant dictionary", m.make_const_dict(g, c)[name_of(lst, k)], c)


@goal("forward with arrays: values by name, own outputs first, then the submodels'")
def arrays():
    s = Sys(CTX.choose(3))
    m, n = s.model, s.n
    S, U, mesh = vec("S", n["states"]), vec("U", n["inputs"]), sym("mesh")
    x, u = s.xu(lambda k: read("S", [k]), lambda k: read("U", [k]))
    for rep in range(2):
        r = m.forward_with_arrays(S, U, mesh)
        shape_is("states_dot", r.states_dot, n["states"])
        k = idx("k", n["states"])
        CTX.require_eq("states_dot", elem(r.states_dot, k), s.F(k, x, u, mesh))
        tot = n["outputs"]
        k = idx("o", n["outputs"])
        CTX.require_eq("outputs", elem(r.outputs, k), s.G(k, x, u, mesh))
        for j, (c, ni, no, nr) in s.leaves.items():
            k = idx("so", no)
            CTX.require_eq("submodel outputs", elem(r.outputs, tot + k), s.out_value(j, k, x, u))
            tot = tot + no
        shape_is("outputs", r.outputs, tot)
        shape_is("con_outputs", r.con_outputs, n["con_outputs"])
        if not CTX.prove(eq(n["con_outputs"], const(0))):
            k = idx("c", n["con_outputs"])
            CTX.require_eq("con_outputs", elem(r.con_outputs, k), s.G(read("con", [k], "int"), x, u, mesh))
        tot = n["residuals"]
        if not CTX.prove(eq(tot, const(0))):
            k = idx("r", tot)
            CTX.require_eq("residuals", elem(r.residuals, k), s.G(read("res", [k], "int"), x, u, mesh))
        for j, (c, ni, no, nr) in s.leaves.items():
            k = idx("sr", nr)
            CTX.require_eq("submodel residuals", elem(r.residuals, tot + k),
                           s.out_value(j, read(f"{j}_res", [k], "int"), x, u))
            tot = tot + nr
        shape_is("residuals", r.residuals, tot)


@goal("implicit residual: f - xdot, g - y, residuals; from group vectors and from the flat vector with parameters")
def implicit():
    s = Sys()
    m, n = s.model, s.n
    flat = CTX.choose(2)
    mesh, p = sym("mesh"), 1.5
    if flat:
        off, V = {}, const(0)
        for g in s.order:
            off[g], V = V, V + n[g]
        par = m.get_recursive_params()
        p = sym("p")
        par.set_param("p", p)
        r = m._apply_and_flat_implicit(vec("X", V), mesh, par)
        at = lambda g: lambda k: read("X", [off[g] + k])
    else:
        r = m.implicit(states=vec("states", n["states"]), inputs=vec("inputs", n["inputs"]),
                       states_dot=vec("states_dot", n["states"]), con_outputs=vec("con_outputs", n["con_outputs"]),
                       mesh=mesh)
        at = lambda g: lambda k: read(g, [k])
    x, u = s.xu(at("states"), at("inputs"))
    shape_is("residual", r, n["states"] + n["con_outputs"] + n["residuals"])
    k = idx("k", n["states"])
    CTX.require_eq("state equations", elem(r, k), s.F(k, x, u, mesh, p) - at("states_dot")(k))
    k = idx("c", n["con_outputs"])
    CTX.require_eq("constrained outputs", elem(r, n["states"] + k),
                   s.G(read("con", [k], "int"), x, u, mesh, p) - at("con_outputs")(k))
    k = idx("r", n["residuals"])
    CTX.require_eq("residuals", elem(r, n["states"] + n["con_outputs"] + k),
                   s.G(read("res", [k], "int"), x, u, mesh, p))


@goal("structures: every pair that can be non-zero is listed exactly once, inside the matrix")
def structures():
    s = Sys()
    m, n = s.model, s.n
    off, V = {}, const(0)
    for g in s.order:
        off[g], V = V, V + n[g]
    R = n["states"] + n["con_outputs"] + n["residuals"]
    U, W = (lambda e: read("U", [e])), (lambda e: read("W", [e]))
    rows, cols = m._model_algebra_jacobianstructure()
    CTX.require_eq("Jacobian: sizes", symnp.size(rows), symnp.size(cols))
    one = lambda t: T(t.spaces, lambda *c: const(1), "real")
    got = weak("Jacobian", one(symnp.ravel(rows)), rows, cols, U, W)
    want = ssum(R, lambda r: U(r)) * (ssum(n["states"], lambda k: W(off["states"] + k))
                                      + ssum(n["inputs"], lambda k: W(off["inputs"] + k)))
    want = want + ssum(n["states"], lambda k: U(k) * W(off["states_dot"] + k))
    want = want + ssum(n["con_outputs"], lambda k: U(n["states"] + k) * W(off["con_outputs"] + k))
    CTX.require_eq("Jacobian structure", got, want)


@goal("hessian structure")
def hstructure():
    s = Sys()
    m, n = s.model, s.n
    off, V = {}, const(0)
    for g in s.order:
        off[g], V = V, V + n[g]
    U, W = (lambda e: read("U", [e])), (lambda e: read("W", [e]))
    rows, cols = m._model_algebra_hessianstructure()
    one = lambda t: T(t.spaces, lambda *c: const(1), "real")
    got = weak("Hessian", one(symnp.ravel(rows)), rows, cols, U, W)
    kept = []                   # ranges of the states and inputs, neighbours as one range
    for g in s.order:
        if g in ("states", "inputs"):
            if kept and not (kept[-1][0] + kept[-1][1] - off[g]).d:
                kept[-1] = (kept[-1][0], kept[-1][1] + n[g])
            else:
                kept.append((off[g], n[g]))

    def part(f):
        tot = const(0)
        for o, m_ in kept:
            tot = tot + ssum(m_, lambda k: f(o + k))
        return tot
    CTX.require_eq("Hessian structure", got, part(U) * part(W))


@goal("names that do not exist are rejected at construction and evaluation")
def rejected():
    n = CTX.size("n", 1)
    bad = CTX.choose(2)
    k = CTX.size("k", 0)
    CTX.assume(ge0(n - k))
    some = sub_list("sg", "outputs", k, n)
    miss = SymSeq(some.segs + [("lit", ["nope"])] + some.segs) if CTX.choose(2) else SymSeq([("lit", ["nope"])])

    class M(StateSpaceModel):
        def forward(self, states, inputs, mesh):
            return StateSpaceModelReturn(states_dot=star(self.make_dict, "states_dot", a=NameMap(names("x", n), lambda k: const(0))),
                                         outputs=star(self.make_outputs_dict, a=NameMap(names("outputs", n), lambda k: const(1))))
    state_space_io(states=names("x", n), inputs=names("u", n), outputs=names("outputs", n),
                   con_outputs=miss if bad == 0 else some, residuals=miss if bad == 1 else some)(M)
    expect_raises("an unknown constrained output or residual", ValueError, M)
    state_space_io(states=names("x", n), inputs=names("u", n), outputs=names("outputs", n), con_outputs=some)(M)
    m = M()
    m.set_con_outputs(miss)
    expect_raises("an unknown constrained output set later", KeyError, m.forward_with_arrays, vec("S", n), vec("U", n),
                  sym("mesh"))
    expect_raises("a backend that does not exist", ValueError, m.make_model_algebra_cons, "nope")

    class NotState(Model):
        pass
    expect_raises("state-space names on another model", RuntimeError, state_space_io(states=names("x", n)), NotState)


@goal("submodel calls: all inputs given, once per evaluation, and every submodel evaluated")
def submodel_calls():
    s = Sys(2)
    m = s.model
    c, ni, no, nr = s.leaves["s0"]
    given = lambda q: NameMap(q, lambda j: ufn("I", j))
    h = idx("h", ni)
    expect_raises("a missing submodel input", KeyError, m.call_submodel, "s0",
                  inputs=given(names("s0_in", ni).without(name_of("s0_in", h))))
    r = m.call_submodel("s0", inputs=given(names("s0_in", ni)))
    k = idx("k", no)
    CTX.require_eq("the submodel's own output", r.outputs[name_of("s0_out", k)],
                   ufn("G_s0", k, ssum(ni, lambda j: ufn("I", j) * read("w_s0_in", [j]))))
    expect_raises("a second call", RuntimeError, m.call_submodel, "s0", inputs=given(names("s0_in", ni)))
    expect_raises("a submodel that does not exist", KeyError, m.call_submodel, "nope", inputs=given(names("s0_in", ni)))
    expect_raises("outputs without the other submodel", KeyError, star, m.make_outputs_dict,
                  o=given(names("outputs", s.n["outputs"])))


@goal("models with states as submodels: all of their states and inputs given")
def state_submodels():
    ns, ni = CTX.size("sub_ns", 1), CTX.size("sub_ni", 1)

    class Sub(StateSpaceModel):
        def forward(self, states, inputs, mesh=0.0):
            y = digest(states, "sub_x", ns) + digest(inputs, "sub_u", ni)
            return StateSpaceModelReturn(states_dot={}, outputs={"y": y})
    Sub.__name__ = "SubWithStates"
    state_space_io(states=names("sub_x", ns), inputs=names("sub_u", ni), outputs=("y",))(Sub)
    ModelMaker._registry.pop(Sub.__name__, None)
    ModelMaker.add_to_registry(Sub)

    @model_io(outputs=())
    class Top(Model):
        @classmethod
        def get_default_submodel_config(cls):
            return {"sub": "SubWithStates"}

        def forward(self, inputs):
            return ModelReturn(outputs=self.make_outputs_dict())
    m = Top()
    x = NameMap(names("sub_x", ns), lambda j: ufn("X", j))
    u = NameMap(names("sub_u", ni), lambda j: ufn("I", j))
    less = lambda q, n, f: NameMap(names(q, n).without(name_of(q, idx("h", n))), f)
    expect_raises("a missing state", KeyError, m.call_submodel, "sub", states=less("sub_x", ns, lambda j: ufn("X", j)), inputs=u)
    expect_raises("a missing input", KeyError, m.call_submodel, "sub", states=x, inputs=less("sub_u", ni, lambda j: ufn("I", j)))
    m.call_submodel("sub", states=x, inputs=u)
    out = m.forward({}).outputs
    CTX.require_eq("output of the submodel", out["sub.y"], ssum(ns, lambda j: ufn("X", j) * read("w_sub_x", [j]))
                   + ssum(ni, lambda j: ufn("I", j) * read("w_sub_u", [j])))


@goal("evaluation with given parameters: those of the model at every level, from then on")
def with_parameters():
    n, no = CTX.size("n_in", 1), CTX.size("n_out", 1)

    @model_io(inputs=names("in", n), outputs=names("out", no))
    class P(Model):
        @classmethod
        def get_default_params(cls):
            return {"p": sym("p0")}

        def forward(self, inputs):
            x = digest(inputs, "in", n)
            return ModelReturn(outputs=star(self.make_outputs_dict, o=NameMap(
                names("out", no), lambda k: ufn("P", k, x, lift(self._params["p"])))))
    m = P()
    t = m.get_recursive_params()
    t.set_param("p", sym("p1"))
    k = idx("k", no)
    u = vec("u", n)
    x = ssum(n, lambda j: read("u", [j]) * read("w_in", [j]))
    arrays = CTX.choose(2)
    given = NameMap(names("in", n), lambda j: read("u", [j]))
    value = lambda r: elem(r.outputs, k) if arrays else r.outputs[name_of("out", k)]
    r = m.apply_and_forward_with_arrays(u, t) if arrays else m.apply_and_forward(given, t)
    CTX.require_eq("output with the given parameters", value(r), ufn("P", k, x, sym("p1")))
    r = m.forward_with_arrays(u) if arrays else m.forward(given)
    CTX.require_eq("output afterwards", value(r), ufn("P", k, x, sym("p1")))


class Deriv:
    """What the derivative of an expression returns: entries known only by the expression and its variable."""

    def __init__(self, kind, expr, var):
        self.kind, self.expr, self.var = kind, expr, var
        self.nnz = CTX.size("nnz_" + kind, 0)

    def sparsity(self):
        return self

    def get_triplet(self):
        return vec(f"{self.kind}_rows", self.nnz, "int"), vec(f"{self.kind}_cols", self.nnz, "int")


class Cas:
    """Contract of casadi: symbols, functions of expressions, derivatives, generated and compiled C code."""

    def __init__(self, content):
        self.content, self.generated, self.compiled, self.there = content, {}, {}, set()
        self.opts, self.includes = None, []
        cas = self

        class MX:
            @staticmethod
            def sym(name, n=None):
                return sym("c_" + name) if n is None else vec("c_" + name, n)

        class Function:
            def __init__(self, name, ins, outs):
                self.name, self.ins, self.outs = name, ins, outs

        class CodeGenerator:
            def __init__(self, cfile, options=None):
                self.cfile, self.fns = cfile, {}
                cas.opts = options

            def add(self, f):
                CTX.require("each function once", f.name not in self.fns)
                self.fns[f.name] = f

            def add_include(self, i):
                cas.includes.append(i)

            def generate(self):
                with open(self.cfile, "w") as f:
                    f.write(cas.content)
                cas.generated[self.cfile] = self.fns

        self.MX = self.SX = MX
        self.Function, self.CodeGenerator = Function, CodeGenerator

    def jacobian(self, e, x):
        return Deriv("jac", e, x)

    def hessian(self, e, x):
        return Deriv("hess", e, x), Deriv("grad", e, x)

    def external(self, name, path):
        if path not in self.compiled:
            CTX.require("a library that was not compiled now is one found on the disk", path in self.there)
            fns = list(self.generated.values())[0]
        else:
            fns = self.compiled[path]
        return fns[name]

    def popen(self, cmd, *a, **kw):
        out = cmd[cmd.index("-o") + 1]
        src = [c for c in cmd if c in self.generated]
        CTX.require("the generated file is compiled", len(src) == 1 and cmd[0] == "gcc" and "-shared" in cmd)
        return types.SimpleNamespace(wait=lambda *a, **k: self.compiled.update({out: self.generated[src[0]]}))

    def run(self, *a, **kw):
        self.popen(*a, **kw).wait()


def bound(made):
    """A class of constraints that only records the arguments it is made with, by name."""
    sig = inspect.signature(nlp.MappedConstraints.__init__)
    return lambda *a, **kw: made.update(sig.bind(None, *a, **kw).arguments)


@contextlib.contextmanager
def patched(cas, found=False, **kw):
    """The model's module with the given stand-ins, in a scratch directory."""
    d, here = tempfile.mkdtemp(), os.getcwd()

    def exists(p):
        if found:
            cas.there.add(p)
        return found
    new = dict(cas=cas, exists=exists, subprocess=types.SimpleNamespace(Popen=cas.popen, run=cas.run, call=cas.run, check_call=cas.run), **kw)
    old = {k: getattr(base, k) for k in new}
    backend, cm = lnp.use_backend, lnp.cmap
    casadi.MX.sym = staticmethod(cas.MX.sym)        # (default arguments hold the real types)
    lnp.use_backend = lambda name: contextlib.nullcontext()
    lnp.cmap = lambda f, in_axes=0, num_workers=1, sparse=False: types.SimpleNamespace(f=f, in_axes=in_axes)
    os.chdir(d)
    try:
        for k, v in new.items():
            setattr(base, k, v)
        yield
    finally:
        os.chdir(here)
        shutil.rmtree(d)
        del casadi.MX.sym
        for k, v in old.items():
            setattr(base, k, v)
        lnp.use_backend, lnp.cmap = backend, cm


def symbol(what, t, name, n=None):
    """t is the symbol of this name and size."""
    if n is None:
        CTX.require_eq(what, lift(t), sym("c_" + name))
        return
    shape_is(what, t, n)
    k = idx("k_" + name, n)
    CTX.require_eq(what, elem(t, k), read("c_" + name, [k]))


def residual(s, what, r, X, mesh, p):
    """r is the implicit residual at the flat vector X."""
    n = s.n
    off, V = {}, const(0)
    for g in s.order:
        off[g], V = V, V + n[g]
    at = lambda g: lambda k: X(off[g] + k)
    x, u = s.xu(at("states"), at("inputs"))
    shape_is(what, r, n["states"] + n["con_outputs"] + n["residuals"])
    k = idx("rk", n["states"])
    CTX.require_eq(what + ": state equations", elem(r, k), s.F(k, x, u, mesh, p) - at("states_dot")(k))
    k = idx("rc", n["con_outputs"])
    CTX.require_eq(what + ": constrained outputs", elem(r, n["states"] + k),
                   s.G(read("con", [k], "int"), x, u, mesh, p) - at("con_outputs")(k))
    k = idx("rr", n["residuals"])
    CTX.require_eq(what + ": residuals", elem(r, n["states"] + n["con_outputs"] + k),
                   s.G(read("res", [k], "int"), x, u, mesh, p))


def forward_value(s, what, out, S, U, mesh, p):
    n = s.n
    x, u = s.xu(S, U)
    CTX.require(what + ": four groups", len(out) == 4)
    for t, m, f, tag in zip(out, (n["states"], n["outputs"], n["con_outputs"], n["residuals"]),
                            (lambda k: s.F(k, x, u, mesh, p), lambda k: s.G(k, x, u, mesh, p),
                             lambda k: s.G(read("con", [k], "int"), x, u, mesh, p),
                             lambda k: s.G(read("res", [k], "int"), x, u, mesh, p)),
                            ("states_dot", "outputs", "con_outputs", "residuals")):
        shape_is(f"{what}: {tag}", t, m)
        k = idx("f_" + tag, m)
        CTX.require_eq(f"{what}: {tag}", elem(t, k), f(k))


def lagrangian(s, mu, X, mesh, p):
    n = s.n
    nst, nc, nr = n["states"], n["con_outputs"], n["residuals"]
    off, tot = {}, const(0)
    for g in s.order:
        off[g], tot = tot, tot + n[g]
    x, u = s.xu(lambda k: X(off["states"] + k), lambda k: X(off["inputs"] + k))
    want = ssum(nst, lambda k: mu(k) * (s.F(k, x, u, mesh, p) - X(off["states_dot"] + k)))
    want = want + ssum(nc, lambda k: mu(nst + k) * (s.G(read("con", [k], "int"), x, u, mesh, p) - X(off["con_outputs"] + k)))
    return want + ssum(nr, lambda k: mu(nst + nc + k) * s.G(read("res", [k], "int"), x, u, mesh, p))


def dims(s):
    n = s.n
    return (n["states"] * 2 + n["inputs"] + n["con_outputs"], n["states"] + n["con_outputs"] + n["residuals"])


def full(s):
    """Residuals and constrained outputs are present (their empty vectors are the other goals' matter)."""
    for g in ("con_outputs", "residuals", "inputs"):
        CTX.assume(ge0(s.n[g] - 1))


@goal("casadi backend: the functions made are the residual, its Jacobian and its Lagrangian's Hessian, and the forward evaluation")
def casadi_backend():
    s = Sys()
    full(s)
    m, n = s.model, s.n
    V, R = dims(s)
    cas = Cas("void f() {}\n")
    made = {}
    with patched(cas, found=bool(CTX.choose(2)), CasMappedConstraints=bound(made)):
        fns = m.make_model_algebra_cons("casadi")
    p = read("c_params", [const(0)])
    X = lambda k: read("c_stage_vars", [k])
    CTX.require("sizes", made["num_in"] is not None)
    CTX.require_eq("inputs", made["num_in"], V)
    CTX.require_eq("residuals", made["num_con"], R)
    keys = ("constraints", "jacobian", "hessian", "jacobian_structure", "hessian_structure")
    CTX.require("the same functions in the constraints and returned", all(made[k] is fns[k] for k in keys))
    c, j, h = (made[k] for k in keys[:3])
    for f, lead in ((c, 1), (j, 1), (h, 2)):
        CTX.require("inputs", len(f.ins) == lead + 2 and len(f.outs) == 1)
        symbol("variables", f.ins[0], "stage_vars", V)
        if lead == 2:
            symbol("multipliers", f.ins[1], "mult", R)
        symbol("mesh", f.ins[lead], "distance")
        symbol("parameters", f.ins[lead + 1], "params", const(1))
    residual(s, "constraints", c.outs[0], X, sym("c_distance"), p)
    d = j.outs[0]
    CTX.require("a Jacobian", d.kind == "jac")
    symbol("with respect to the variables", d.var, "stage_vars", V)
    residual(s, "Jacobian of", d.expr, X, sym("c_distance"), p)
    d = h.outs[0]
    CTX.require("a Hessian", d.kind == "hess")
    symbol("with respect to the variables", d.var, "stage_vars", V)
    want = lagrangian(s, lambda k: read("c_mult", [k]), X, sym("c_distance"), p)
    CTX.require_eq("Hessian of the Lagrangian", lift(d.expr), want)
    for key, kind in (("jacobian_structure", "jac"), ("hessian_structure", "hess")):
        nz = {"jac": j, "hess": h}[kind].outs[0].nnz
        for t, w in zip(map(symnp.ravel, made[key]), ("rows", "cols")):
            shape_is(f"{kind} {w}", t, nz)
            k = idx(f"z_{kind}_{w}", nz)
            CTX.require_eq(f"{kind} {w}", elem(t, k), read(f"{kind}_{w}", [k], "int"))


@goal("casadi backend: the mapped forward evaluation is of the values and the parameters given")
def casadi_forward():
    s = Sys()
    full(s)
    m, n = s.model, s.n
    cas = Cas("void f() {}\n")
    seen = {}
    with patched(cas, CasMappedConstraints=bound({})):
        def cm(f, in_axes=0, num_workers=1, sparse=False):
            CTX.require("values mapped, parameters not", list(in_axes) == [0, 0, 0, None] and not sparse)
            symbol("states", f.ins[0], "states", n["states"])
            symbol("inputs", f.ins[1], "inputs", n["inputs"])
            symbol("mesh", f.ins[2], "distance")
            symbol("parameters", f.ins[3], "params", const(1))
            S, U = (lambda k: read("c_states", [k])), (lambda k: read("c_inputs", [k]))
            forward_value(s, "forward", f.outs, S, U, sym("c_distance"), read("c_params", [const(0)]))

            def call(*a):
                seen["args"] = a
                return ("a", "b", "c", "d")
            return call
        lnp.cmap = cm
        m.make_model_algebra_cons("casadi")
        q = m.get_recursive_params()
        q.set_param("p", sym("other"))
        B = CTX.size("B", 1)
        S, U, M = arr("S", B, n["states"]), arr("U", B, n["inputs"]), vec("M", B)
        r = m.batched_forward(S, U, M, q)
    CTX.require("the groups of the result", (r.states_dot, r.outputs, r.con_outputs, r.residuals) == ("a", "b", "c", "d"))
    a = seen["args"]
    CTX.require("the values", a[0] is S and a[1] is U and a[2] is M and len(a) == 4)
    CTX.require_eq("the parameters given", elem(a[3], const(0)), sym("other"))
    shape_is("parameters", a[3], const(1))


@goal("casadi backend: different generated code is compiled to different libraries")
def libraries():
    s = Sys()
    full(s)
    paths = []
    for text in ("void f() {}\n", "void g() {}\n" * 5000, "void f() {}\n"):
        cas = Cas(text)
        with patched(cas, CasMappedConstraints=bound({})):
            s.model.make_model_algebra_cons("casadi")
        CTX.require("one library", len(cas.compiled) == 1)
        paths += list(cas.compiled)
    CTX.require("the library belongs to the code", paths[0] != paths[1] and paths[0] == paths[2])


@goal("exported C code: the forward evaluation as a function of states, inputs, mesh and parameters; the model stays as it was")
def exported():
    s = Sys()
    full(s)
    m, n = s.model, s.n
    cas = Cas("void f() {}\n")
    opts, inc = [(None, None), ({"mex": True}, ["a.h", "b.h"])][CTX.choose(2)]
    with patched(cas):
        m.export_c_code("out.c", CasType=cas.MX, options=opts, includes=inc)
    CTX.require("options", cas.opts == (opts or {}))
    CTX.require("includes", cas.includes == (inc or []))
    CTX.require("one file, one function", list(cas.generated) == ["out.c"] and list(cas.generated["out.c"]) == ["forward"])
    f = cas.generated["out.c"]["forward"]
    symbol("states", f.ins[0], "states", n["states"])
    symbol("inputs", f.ins[1], "inputs", n["inputs"])
    symbol("mesh", f.ins[2], "distance")
    symbol("parameters", f.ins[3], "params", const(1))
    forward_value(s, "forward", f.outs, lambda k: read("c_states", [k]), lambda k: read("c_inputs", [k]),
                  sym("c_distance"), read("c_params", [const(0)]))
    CTX.require_eq("the model's own parameter", lift(m.get_recursive_params().get_param("p")), lift(1.5))


class Jax:
    """Contract of jax: derivatives of a function, compilation that changes nothing, and mapping."""

    class Of:
        made = []

        def __init__(self, kind, fn, dims):
            self.kind, self.fn, self.dims = kind, fn, dims
            Jax.Of.made.append(self)

        def __call__(self, *a):
            self.value = self.fn(*a)
            self.args = a
            tag, d = self.kind, self.dims
            return T(tuple(Atm(x) for x in d), lambda *c: ufn("D_" + tag, *c, *[digest_arg(x) for x in a]), "real")

    def __init__(self, V, R):
        self.jacobian = lambda f: Jax.Of("jac", f, (R, V))
        self.hessian = lambda f: Jax.Of("hess", f, (V, V))
        self.jit = lambda f: f
        self.numpy = lnp


def digest_arg(x):
    if isinstance(x, T) and x.ndim:
        return ssum(x.spaces[0].size(), lambda k: elem(x, k) * read("w_digest", [k]))
    if isinstance(x, ParameterTree):
        return lift(x.get_param("p"))
    return lift(x)


@goal("jax backend: the mapped functions are the residual and the stored entries of its Jacobian and its Lagrangian's Hessian")
def jax_backend():
    s = Sys()
    full(s)
    m, n = s.model, s.n
    V, R = dims(s)
    jx = Jax(V, R)
    maps = []

    def vmap(f, in_axes=0, **kw):
        maps.append((f, list(in_axes)))
        return lambda *a: f(*a)
    keep = nlp.jax, nlp.JaxMappedConstraints.__dict__["map_func"], nlp.jnp, m._model_algebra_jacobianstructure, m._model_algebra_hessianstructure
    zj, zh = CTX.size("zj", 1), CTX.size("zh", 1)
    CTX.array_bounds("jr", lambda k: (const(0), R - 1))
    for a in ("jc", "hr", "hc"):
        CTX.array_bounds(a, lambda k: (const(0), V - 1))
    m._model_algebra_jacobianstructure = lambda: (vec("jr", zj, "int"), vec("jc", zj, "int"))
    m._model_algebra_hessianstructure = lambda: (vec("hr", zh, "int"), vec("hc", zh, "int"))
    ubase = lnp.use_backend
    lnp.use_backend = lambda name: (lambda f: f)
    nlp.jax, nlp.jnp, nlp.JaxMappedConstraints.map_func = jx, lnp, staticmethod(vmap)
    bj = base.jit, base.vmap
    base.jit, base.vmap = jx.jit, vmap
    try:
        m.make_model_algebra_cons("jax")
        q = m.get_recursive_params()
        p = sym("other")
        q.set_param("p", p)
        X, mu, mesh = vec("X", V), vec("mu", R), sym("mesh")
        con = m.model_algebra
        c = con.mapped_constraints(X, mesh, q)
        residual(s, "constraints", c, lambda k: read("X", [k]), mesh, p)
        CTX.require("axes", maps[0][1] == [0, 0, None] and maps[1][1] == [0, 0, None] and maps[2][1] == [0, 0, 0, None])
        CTX.require_eq("sizes", con.num_in, V)
        CTX.require_eq("sizes", con.num_con, R)
        which = CTX.choose(3)
        args = [X, mesh, q] if which == 0 else [X, mu, mesh, q]
        if which < 2:
            kind, rows, cols, z = [("jac", "jr", "jc", zj), ("hess", "hr", "hc", zh)][which]
            v = (con.mapped_jacobian, con.mapped_hessian)[which](*args)
            shape_is(kind, v, z)
            k = idx("z", z)
            CTX.require_eq(kind + " entry", elem(v, k), ufn("D_" + kind, read(rows, [k], "int"), read(cols, [k], "int"),
                                                            *[digest_arg(a) for a in args]))
            d = [o for o in Jax.Of.made if o.kind == kind][-1]
            if which == 0:
                residual(s, "Jacobian of", d.value, lambda k: read("X", [k]), mesh, p)
            else:
                CTX.require_eq("Hessian of the Lagrangian", lift(d.value),
                               lagrangian(s, lambda k: read("mu", [k]), lambda k: read("X", [k]), mesh, p))
        else:
            r = m.batched_forward(vec("S", n["states"]), vec("U", n["inputs"]), mesh, q)
            CTX.require("axes", maps[-1][1] == [0, 0, 0, None])
            forward_value(s, "forward", r, lambda k: read("S", [k]), lambda k: read("U", [k]), mesh, p)
    finally:
        nlp.jax, nlp.JaxMappedConstraints.map_func, nlp.jnp = keep[:3]
        base.jit, base.vmap = bj
        lnp.use_backend = ubase


@goal("custom backend: the residual with the model's own derivative functions and structures; the mapped forward evaluation")
def custom_backend():
    s = Sys()
    full(s)
    m, n = s.model, s.n
    V, R = dims(s)
    made = {}
    own = {}
    for k in ("_implicit_jac", "_implicit_hess"):
        own[k] = lambda *a: None
        setattr(m, k, own[k])
    js, hs = (object(), object()), (object(), object())
    m._implicit_jacobianstructure, m._implicit_hessianstructure = (lambda: js), (lambda: hs)
    keep = base.MappedConstraints
    base.MappedConstraints = bound(made)
    try:
        fns = m.make_model_algebra_cons("custom")
    finally:
        base.MappedConstraints = keep
    want = {"jacobian": own["_implicit_jac"], "hessian": own["_implicit_hess"], "jacobian_structure": js,
            "hessian_structure": hs}
    for k, v in want.items():
        CTX.require(k, made[k] is v and fns[k] is v)
    CTX.require_eq("inputs", made["num_in"], V)
    CTX.require_eq("residuals", made["num_con"], R)
    q = m.get_recursive_params()
    p = sym("other")
    q.set_param("p", p)
    mesh = sym("mesh")
    residual(s, "constraints", made["constraints"](vec("X", V), mesh, q), lambda k: read("X", [k]), mesh, p)
    B = CTX.size("B", 1)
    b = idx("b", B)

    def lmap(f, in_axes=0):         # (C27) the element b of the result is the function of the elements b
        CTX.require("all values mapped", in_axes == 0 or list(in_axes) == [0, 0, 0])
        return lambda *a: f(*[x[b] for x in a])
    keep, lnp.lmap = lnp.lmap, lmap
    try:
        r = m.batched_forward(arr("S", B, n["states"]), arr("U", B, n["inputs"]), vec("M", B), q)
    finally:
        lnp.lmap = keep
    forward_value(s, "forward", r, lambda k: read("S", [b, k]), lambda k: read("U", [b, k]), read("M", [b]), p)
    CTX.require("by name", r.states_dot is r[0] and r.outputs is r[1] and r.con_outputs is r[2] and r.residuals is r[3])


@canary("con_outputs in the order of the outputs must be refuted")
def wrong():
    s = Sys()
    r = s.model.forward_with_arrays(vec("S", s.n["states"]), vec("U", s.n["inputs"]), sym("mesh"))
    x, u = s.xu(lambda k: read("S", [k]), lambda k: read("U", [k]))
    k = idx("c", s.n["con_outputs"])
    CTX.require_eq("con_outputs", elem(r.con_outputs, k), s.G(k, x, u, sym("mesh")))


assume_note("names of one list are distinct, hold no '.', and names of different lists differ")
assume_note("the user's forward is an arbitrary function of the inputs it is handed (uninterpreted)")
assume_note("jax.jacobian, jax.hessian, jit and vmap, casadi's derivatives and code generator and the C compiler are "
            "trusted (the bounded run compares their results with differences); a library found on the disk under the hash of "
            "the generated code is taken to be that code compiled")

"""Runtime contract: model vectors follow the declared names; implicit residuals and their derivatives are exact."""
import os
import subprocess

import casadi as cas
import numpy as np

import lumos.numpy as lnp
from concrete.access import direct
from concrete import toy
from concrete.base import case, require, close, equal, raises
from lumos.models.base import (Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io)
from lumos.models.composition import ModelMaker

_count = [0]


def names(rng, k, prefix):
    return tuple(f"{prefix}{j}" for j in rng.permutation(k))


def random_class(rng, depth=0, registered=None, deep=2):
    """A stateless model over a random tree of submodels, with its expected behaviour."""
    ins = names(rng, int(rng.integers(1, 4)), "in")
    outs = names(rng, int(rng.integers(1, 4)), "out")
    res = tuple(rng.permutation(outs)[:int(rng.integers(0, len(outs) + 1))].tolist())
    subs = {}
    if depth < deep:
        for j in range(1 if deep > 2 else int(rng.integers(0, 3))):
            subs[f"sub{rng.integers(100)}_{j}"] = random_class(rng, depth + 1, registered, deep)
    W = rng.normal(size=(len(outs), len(ins)))
    order = rng.permutation(list(subs)).tolist()
    g = float(rng.normal())

    @model_io(inputs=ins, outputs=outs, residuals=res)
    class M(Model):
        @classmethod
        def get_default_submodel_config(cls):
            return {n: c.__name__ for n, (c, _) in subs.items()}

        @classmethod
        def get_default_params(cls):
            return {"gain": g}

        def forward(self, inputs):
            own = {o: self._params["gain"] * sum(W[k, j] * inputs[n] for j, n in enumerate(ins))
                   for k, o in enumerate(outs)}
            for n in order:
                c = subs[n][0]
                self.call_submodel(n, inputs={i: own[outs[0]] * (j + 1.0)
                                              for j, i in enumerate(direct(c).inputs)})
            shuffled = dict(reversed(list(own.items())))
            out = self.make_outputs_dict(**shuffled)
            return ModelReturn(outputs=out, residuals={r: out[r] for r in self.names.residuals})

    _count[0] += 1
    M.__name__ = f"Toy{os.getpid()}_{_count[0]}"

    def expect(x, gains):
        """{name: value} of all outputs for the inputs x."""
        own = {o: gains["gain"] * sum(W[k, j] * x[n] for j, n in enumerate(ins)) for k, o in enumerate(outs)}
        r = dict(own)
        for n, (c, e) in subs.items():
            for k, v in e({i: own[outs[0]] * (j + 1.0) for j, i in enumerate(direct(c).inputs)},
                          gains[n]).items():
                r[f"{n}.{k}"] = v
        return r

    expect.subs, expect.ins, expect.outs, expect.res = subs, ins, outs, res
    if depth:
        ModelMaker.add_to_registry(M)
        registered.append(M)
    return M, expect


def expected_names(e):
    o, r = list(e.outs), list(e.res)
    for n, (_, f) in e.subs.items():
        so, sr = expected_names(f)
        o += [f"{n}.{k}" for k in so]
        r += [f"{n}.{k}" for k in sr]
    return o, r


def gains_of(e, own, rng, t):
    """Random gains set through the paths of the parameter tree t; the nested dictionary of them."""
    d = {"gain": own}
    for n, (_, f) in e.subs.items():
        d[n] = gains_of(f, float(rng.normal()), rng, None)
    return d


def paths(d, pre=""):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from paths(v, pre + k + ".")
        else:
            yield pre + k, v


@case(quick=120)
def vectors(rng):
    registered = []
    try:
        cls, e = random_class(rng, registered=registered, deep=[2, 2, 2, 5][int(rng.integers(4))])
        m = cls()
        on, rn = expected_names(e)
        equal(list(m.names.inputs), list(e.ins), "input names")
        require(set(m.names.outputs) == set(on) and len(m.names.outputs) == len(on), f"outputs {m.names.outputs}")
        require(list(m.names.outputs)[:len(e.outs)] == list(e.outs), "the model's own outputs do not come first")
        require(set(m.names.residuals) == set(rn) and len(m.names.residuals) == len(rn), f"{m.names.residuals}")
        require((m.num_inputs, m.num_outputs, m.num_residuals) == (len(e.ins), len(on), len(rn)), "sizes")
        t = m.get_recursive_params()
        gains = gains_of(e, float(rng.normal()), rng, t)
        for path, v in paths(gains):
            t.set_param(path, v)
        m.set_recursive_params(t)
        for group in ("inputs", "outputs"):
            gn = m.get_group_names(group)
            vals = dict(zip(rng.permutation(gn).tolist(), rng.normal(size=len(gn))))
            extra = {"not_a_name": 3.0} if rng.integers(2) else {}
            v = np.asarray(m.make_vector(group, **vals, **extra))
            equal(v, [vals[n] for n in gn], f"vector of the {group}")
            get = m.get_input if group == "inputs" else m.get_output
            for k, n in enumerate(gn):
                require(m.get_var_index(group, n) == k, f"index of {n}")
                require(get(v, n) == vals[n], f"value of {n}")
            d = m.make_dict(group, **vals)
            require(all(d[n] == vals[n] for n in gn), "dictionary")
            less = dict(vals)
            less.pop(gn[int(rng.integers(len(gn)))])
            raises(KeyError, lambda: m.make_vector(group, **less), "a missing value was accepted")
            raises(KeyError, lambda: m.make_vector(group, **less, **{"not_a_name": 1.0}), "a missing value was accepted")
            raises(KeyError, lambda: m.make_dict(group, **less), "a missing value was accepted")
            c = float(rng.normal())
            equal(np.asarray(m.make_const_vector(group, c)), np.full(len(gn), c), "constant vector")
            require(m.make_const_dict(group, c) == {n: c for n in gn}, "constant dictionary")
            require(np.shape(m.make_random_vector(group)) == (len(gn),), "random vector")
        raises(KeyError, lambda: m.get_var_index("inputs", "not_a_name"), "an unknown name was accepted")
        for rep in range(2):
            x = dict(zip(e.ins, rng.normal(size=len(e.ins))))
            want = e(x, gains)
            r = m.forward(x)
            for n in m.names.outputs:
                close(r.outputs[n], want[n], f"output {n}")
            a = m.forward_with_arrays(np.array([x[n] for n in e.ins]))
            close(a.outputs, [want[n] for n in m.names.outputs], "array outputs")
            close(a.residuals, [want[n] for n in m.names.residuals], "array residuals")
        b = m.apply_and_forward_with_arrays(np.array([x[n] for n in e.ins]), t)
        close(b.outputs, [want[n] for n in m.names.outputs], "array outputs with parameters")
        b = m.apply_and_forward(x, t)
        close([b.outputs[n] for n in m.names.outputs], [want[n] for n in m.names.outputs], "outputs with parameters")
        for arrays in (True, False):
            # other parameters
            gains = gains_of(e, float(rng.normal()), rng, t)
            for path, v in paths(gains):
                t.set_param(path, v)
            want = e(x, gains)
            if arrays:
                b = m.apply_and_forward_with_arrays(np.array([x[n] for n in e.ins]), t).outputs
            else:
                b = m.apply_and_forward(x, t).outputs
                b = [b[n] for n in m.names.outputs]
            close(b, [want[n] for n in m.names.outputs], "outputs with other parameters")
        if e.subs:
            n = list(e.subs)[0]
            sub = m.get_submodel(n)
            sx = {i: 1.0 for i in sub.names.inputs}
            m.call_submodel(n, inputs=sx)
            raises(RuntimeError, lambda: m.call_submodel(n, inputs=sx), "a second call of a submodel was accepted")
            if not hasattr(m, "_clear_submodel_return_buffer"):
                return
            m._clear_submodel_return_buffer()
            k = list(sx)[0]
            sx.pop(k)
            raises(KeyError, lambda: m.call_submodel(n, inputs=sx), "a submodel call without all inputs was accepted")
            raises(KeyError, lambda: m.get_submodel("nope"), "an unknown submodel was accepted")
            m._clear_submodel_return_buffer()
            raises(KeyError, lambda: m.make_outputs_dict(**{o: 0.0 for o in e.outs}),
                   "outputs were combined without calling the submodels")
        return dict(n=len(on), subs=len(e.subs))
    finally:
        for c in registered:
            ModelMaker.remove_from_registry(c)


@case(quick=30)
def state_space_submodels(rng):
    """A submodel with states is called with all of its states and inputs."""
    _count[0] += 1
    st, ins = names(rng, int(rng.integers(1, 4)), "x"), names(rng, int(rng.integers(1, 4)), "u")
    seen = []

    @state_space_io(states=st, inputs=ins, outputs=("y",))
    class Sub(StateSpaceModel):
        def forward(self, states, inputs, mesh=0.0):
            seen.append((states, inputs))
            return StateSpaceModelReturn(states_dot={n: 0.0 for n in st}, outputs={"y": 1.0})

    Sub.__name__ = f"Sub{os.getpid()}_{_count[0]}"

    @model_io(inputs=("a",), outputs=())
    class Top(Model):
        @classmethod
        def get_default_submodel_config(cls):
            return {"sub": Sub.__name__}

        def forward(self, inputs):
            return ModelReturn(outputs=self.make_outputs_dict())

    ModelMaker.add_to_registry(Sub)
    try:
        for group in ("states", "inputs", None):
            m = Top()
            d = dict(states={n: float(rng.normal()) for n in st}, inputs={n: float(rng.normal()) for n in ins})
            if group:
                d[group].pop(list(d[group])[int(rng.integers(len(d[group])))])
                if rng.integers(2):
                    d[group]["not_a_name"] = 1.0
                raises(KeyError, lambda: m.call_submodel("sub", **d, mesh=0.0), f"a submodel call without all {group} was accepted")
                require(not seen, "the submodel was called")
            else:
                m.call_submodel("sub", **d, mesh=0.0)
                require(seen == [(d["states"], d["inputs"])], "what the submodel was given")
                require(m.forward({}).outputs == {"sub.y": 1.0}, "outputs of the submodel")
    finally:
        ModelMaker.remove_from_registry(Sub)


@case(quick=60)
def state_space_tree(rng):
    """A state space model over a tree of submodels."""
    registered = []
    try:
        cls, e = random_class(rng, 1, registered, deep=int(rng.integers(1, 6)))
        st, ins = names(rng, int(rng.integers(1, 4)), "x"), names(rng, int(rng.integers(0, 3)), "u")
        W, V = rng.normal(size=(len(e.ins), len(st) + len(ins))), rng.normal(size=len(st))
        on, rn = expected_names(e)
        on, rn = ["sub." + n for n in on], ["sub." + n for n in rn]
        own = ("y", "b")[:int(rng.integers(1, 3))]
        con = tuple(rng.permutation([*on, *own])[:int(rng.integers(0, 4))].tolist())
        late = rng.integers(2)

        @state_space_io(states=st, inputs=ins, outputs=own, residuals=own[:1], **({} if late else {"con_outputs": con}))
        class Top(StateSpaceModel):
            @classmethod
            def get_default_submodel_config(cls_):
                return {"sub": cls.__name__}

            def forward(self, states, inputs, mesh=0.0):
                z = [states[n] for n in st] + [inputs[n] for n in ins]
                r = self.call_submodel("sub", inputs={n: sum(W[k, j] * q for j, q in enumerate(z)) for k, n in enumerate(e.ins)})
                v = r.outputs[e.outs[0]]
                out = self.make_outputs_dict(**{n: (k + 2) * v + mesh for k, n in enumerate(own)})
                return StateSpaceModelReturn(
                    states_dot={n: V[k] * v for k, n in enumerate(st)}, outputs=out,
                    con_outputs={n: out[n] for n in con}, residuals={n: out[n] for n in [own[0], *rn]})

        m = Top()
        if late:
            m.set_con_outputs(con)
        require(set(m.names.outputs) == {*own, *on} and len(m.names.outputs) == len(own) + len(on), f"outputs {m.names.outputs}")
        require(list(m.names.outputs)[:len(own)] == list(own), "the model's own outputs do not come first")
        require(set(m.names.residuals) == {own[0], *rn} and len(m.names.residuals) == 1 + len(rn), f"residuals {m.names.residuals}")
        equal(list(m.names.con_outputs), list(con), "constrained outputs")
        require(m.num_implicit_res == len(st) + len(con) + 1 + len(rn), "number of residuals")
        t = m.get_recursive_params()
        gains = gains_of(e, float(rng.normal()), rng, t)
        for path, v in paths(gains):
            t.set_param("sub." + path, v)
        m.set_recursive_params(t)
        z, mesh = rng.normal(size=len(st) + len(ins)), float(rng.normal())
        sub = e(dict(zip(e.ins, W @ z)), gains)
        v = sub[e.outs[0]]
        want = {**{n: (k + 2) * v + mesh for k, n in enumerate(own)}, **{"sub." + n: q for n, q in sub.items()}}
        r = m.forward_with_arrays(z[:len(st)], z[len(st):], mesh)
        close(r.states_dot, V * v, "states_dot")
        close(r.outputs, [want[n] for n in m.names.outputs], "outputs")
        close(r.con_outputs, [want[n] for n in con], "con_outputs")
        close(r.residuals, [want[n] for n in m.names.residuals], "residuals")
        d, q = rng.normal(size=len(st)), rng.normal(size=len(con))
        got = m.implicit(states=z[:len(st)], inputs=z[len(st):], states_dot=d, con_outputs=q, mesh=mesh)
        close(got, np.concatenate([V * v - d, [want[n] for n in con] - q, [want[n] for n in m.names.residuals]]),
              "implicit residual")
        return dict(con=len(con), res=len(rn))
    finally:
        for c in registered:
            ModelMaker.remove_from_registry(c)


def stateful(rng, **kw):
    full = kw.pop("full", False)          # another order of the groups, and at least one constrained output
    cls = toy.toy_class(rng, mesh=True, order=toy.ORDERS[int(rng.integers(1 if full else 0, 3))]
                        if full or rng.integers(2) else None, **kw)
    m = cls()
    outs = list(direct(cls).outputs)
    if outs and (full or rng.integers(4)):
        m.set_con_outputs(tuple(rng.permutation(outs)[:int(rng.integers(min(2, len(outs)) if full else 0, len(outs) + 1))].tolist()))
    p = float(rng.normal())
    t = m.get_recursive_params()
    t.set_param("p", p)
    m.set_recursive_params(t)
    return m, p


@case(quick=80)
def implicit(rng):
    m, p = stateful(rng)
    n = {g: len(m.get_group_names(g)) for g in ("states", "inputs", "states_dot", "con_outputs", "residuals")}
    require(n["states"] == n["states_dot"] == m.num_states, "sizes")
    require(m.num_implicit_res == n["states"] + n["con_outputs"] + n["residuals"], "number of residuals")
    n_, off, o = n, {}, 0
    for g in m.implicit_inputs:
        off[g] = o
        equal(m.get_group_indices_in_flat(g), np.arange(o, o + n[g]), f"positions of the {g}")
        for k, name in enumerate(m.get_group_names(g)):
            require(m.get_var_index_in_flat(g, name) == o + k, f"position of {g}.{name}")
        o += n[g]
    require(m.num_implicit_var == o, "number of variables")
    require(sorted(m.implicit_inputs) == ["con_outputs", "inputs", "states", "states_dot"], "groups")
    v, mesh = rng.normal(size=o), float(rng.normal())
    grp = {g: v[off[g]:off[g] + n[g]] for g in m.implicit_inputs}
    want = m.full_val(v, mesh, p)
    close(m.implicit(**grp, mesh=mesh), want, "implicit residual")
    r = m.forward_with_arrays(grp["states"], grp["inputs"], mesh)
    z = np.concatenate([grp["states"], grp["inputs"]])
    f = m.f.val(z, mesh, p)
    c, res = m.out_rows()
    close(r.states_dot, f[:n["states"]], "states_dot")
    close(r.outputs, f[n["states"]:], "outputs")
    close(r.con_outputs, f[c], "con_outputs")
    close(r.residuals, f[res], "residuals")
    q = float(rng.normal())
    t = m.get_recursive_params()
    t.set_param("p", q)
    r = m.apply_and_forward_with_arrays(grp["states"], grp["inputs"], mesh, t)
    f = m.f.val(z, mesh, q)
    close(r.states_dot, f[:n["states"]], "states_dot with parameters")
    close(r.con_outputs, f[c], "con_outputs with parameters")
    S, U = (dict(zip(m.get_group_names(g), grp[g])) for g in ("states", "inputs"))
    for n in S:
        close(m.get_state(grp["states"], n), S[n], f"state {n} of the vector")
    for n in U:
        close(m.get_input(grp["inputs"], n), U[n], f"input {n} of the vector")
    q = float(rng.normal())
    t.set_param("p", q)
    r = m.apply_and_forward(dict(reversed(list(S.items()))), dict(U), mesh, t)
    f = m.f.val(z, mesh, q)
    close([r.states_dot[n] for n in S], f[:n_["states"]], "states_dot of dictionaries with parameters")
    close([r.outputs[n] for n in direct(type(m)).outputs], f[n_["states"]:], "outputs of dictionaries with parameters")
    return dict(n=o, order=list(m.implicit_inputs), con=n_["con_outputs"])


def derivatives(rng, backend):
    m, p = stateful(rng, sizes=(int(rng.integers(1, 3)), int(rng.integers(1, 3)), int(rng.integers(1, 4))),
                    full=backend == "jax")
    keep = m.get_recursive_params().to_dict()
    m.make_model_algebra_cons(backend)
    require(m.get_recursive_params().to_dict() == keep, "the parameters were changed")
    con = m.model_algebra
    t = m.get_recursive_params()
    q = float(rng.normal())
    t.set_param("p", q)
    par = t if backend != "casadi" else t.tree_ravel()[0]
    V, C = m.num_implicit_var, m.num_implicit_res
    require((con.num_in, con.num_con) == (V, C), "sizes")
    B = int(rng.integers(1, 4))
    X, mesh, mult = rng.normal(size=(B, V)), rng.normal(size=B), rng.normal(size=(B, C))
    val = np.asarray(con.mapped_constraints(X, mesh, par))
    close(val, [m.full_val(x, s, q) for x, s in zip(X, mesh)], "constraints")
    J = np.asarray(con.mapped_jacobian(X, mesh, par)).reshape(B, -1)
    H = np.asarray(con.mapped_hessian(X, mult, mesh, par)).reshape(B, -1)
    jr, jc = con.jacobianstructure()
    hr, hc = con.hessianstructure()
    for i in (jr, jc, hr, hc):
        require(np.issubdtype(np.asarray(i).dtype, np.integer), f"positions of type {np.asarray(i).dtype}")
    for k in range(B):
        close(toy.dense(np.asarray(jr, int), np.asarray(jc, int), J[k], (C, V)), m.full_jac(X[k], mesh[k], q),
              f"Jacobian of element {k}", rtol=1e-7)
        D = toy.dense(np.asarray(hr, int), np.asarray(hc, int), H[k], (V, V))
        want = m.full_hess(X[k], mult[k], mesh[k], q)
        if np.abs(np.tril(D, -1)).max(initial=0) == 0 or np.abs(np.triu(D, 1)).max(initial=0) == 0:
            D = toy.sym_upper(D) if V > 1 else D
        close(D, want, f"Hessian of element {k}", rtol=1e-7)
    ns = m.num_states
    ng = len(m.get_group_names("inputs"))
    S, U = rng.normal(size=(B, ns)), rng.normal(size=(B, ng))
    out = m.batched_forward(S, U, mesh, t)
    c, res = m.out_rows()
    f = np.array([m.f.val(np.concatenate([s, u]), z, q) for s, u, z in zip(S, U, mesh)])
    close(np.asarray(out.states_dot), f[:, :ns], "batched states_dot")
    close(np.asarray(out.outputs).reshape(B, -1), f[:, ns:], "batched outputs")
    close(np.asarray(out.con_outputs).reshape(B, -1), f[:, c], "batched con_outputs")
    close(np.asarray(out.residuals).reshape(B, -1), f[:, res], "batched residuals")
    return dict(V=V, C=C, B=B)


@case(quick=25)
def custom_derivatives(rng):
    return derivatives(rng, "custom")


@case(quick=14)
def casadi_derivatives(rng):
    return derivatives(rng, "casadi")


@case(quick=3, thorough=20)
def jax_derivatives(rng):
    return derivatives(rng, "jax")


@case(quick=5)
def exported_code(rng):
    m, p = stateful(rng)
    keep = m.get_recursive_params().to_dict()
    m.export_c_code("toy_export.c", CasType=[cas.MX, cas.SX][int(rng.integers(2))])
    require(m.get_recursive_params().to_dict() == keep, "the parameters were changed")
    lib = f"./toy_export_{rng.integers(1 << 40)}.so"
    if subprocess.run(["gcc", "-fPIC", "-shared", "toy_export.c", "-o", lib]).returncode:
        require(False, "the exported code does not compile")
    f = cas.external("forward", lib)
    t = m.get_recursive_params()
    q = float(rng.normal())
    t.set_param("p", q)
    s, u, z = rng.normal(size=m.num_states), rng.normal(size=m.num_inputs), float(rng.normal())
    out = f(s, u, z, t.tree_ravel()[0])
    want = m.f.val(np.concatenate([s, u]), z, q)
    c, res = m.out_rows()
    for k, (a, b) in enumerate(zip(out, [want[:m.num_states], want[m.num_states:], want[c], want[res]])):
        close(np.asarray(a).ravel(), b, f"exported output {k}")
    return dict(ns=m.num_states)


@case(quick=20)
def rejection(rng):
    def build(**kw):
        @state_space_io(states=("a",), inputs=("u",), outputs=("o",), **kw)
        class M(StateSpaceModel):
            def forward(self, states, inputs, mesh=0.0):
                return StateSpaceModelReturn(states_dot={"a": states["a"]}, outputs={"o": inputs["u"]})
        return M()
    build(con_outputs=("o",), residuals=("o",))
    raises(ValueError, lambda: build(con_outputs=("x",)), "an unknown constrained output was accepted")
    raises(ValueError, lambda: build(residuals=("x",)), "an unknown residual was accepted")
    m, _ = stateful(rng)
    raises(ValueError, lambda: m.make_model_algebra_cons("nope"), "an unknown backend was accepted")
    for g in ("states", "inputs", "outputs", "states_dot"):
        d = {n: float(k) for k, n in enumerate(m.get_group_names(g))}
        if not d:
            continue
        n = list(d)[int(rng.integers(len(d)))]
        miss = {k: v for k, v in d.items() if k != n}
        for bad in (miss, {**miss, n + "_": 1.0}, {**miss, n + "_": 1.0, n + "__": 2.0}):
            raises(KeyError, lambda: m.make_dict(g, **bad), f"{g} without {n} made a dictionary")
            raises(KeyError, lambda: m.make_vector(g, **bad), f"{g} without {n} made a vector")
        back = dict(reversed(list(d.items())))
        close(m.make_vector(g, **back), np.arange(float(len(d))), f"vector of {g}")
        require(dict(m.make_dict(g, **back)) == d, f"dictionary of {g}")
    m.set_con_outputs(("nope",))
    raises(KeyError, lambda: m.forward_with_arrays(np.zeros(m.num_states), np.zeros(m.num_inputs), 0.0),
           "an unknown constrained output was evaluated")
    return dict(k=int(rng.integers(1000)))

"""Runtime contract: composed models follow their configuration, parameters and paths."""
import copy

import numpy as np

from concrete.base import case, require, equal, raises
from lumos.models.base import Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io
from lumos.models.composition import CompositeModel, ModelMaker
from lumos.models.tree_utils import ConfigTree, ParameterTree

COUNT = [0]


def value(rng):
    k = int(rng.integers(4))
    if k < 2:
        return float(rng.normal())
    return rng.normal(size=tuple(int(i) for i in rng.integers(1, 4, size=k - 1)))


class World:
    """A registry of classes, each with default submodels and parameters; names of children are reused across classes."""

    def __init__(self, rng):
        self.rng = rng
        COUNT[0] += 1
        tag = f"W{COUNT[0]}_"
        self.kind = int(rng.integers(3))
        self.classes, self.kids, self.params = {}, {}, {}
        n = int(rng.integers(2, 7))
        pool = ["aero", "base", "tire", "x", "10", "9", "kin_1"]
        for k in range(n):
            name = f"{tag}{k}"
            kids = {}
            if self.classes:
                for c in rng.permutation(pool)[:int(rng.integers(0, 4))]:
                    kids[str(c)] = list(self.classes)[int(rng.integers(len(self.classes)))]
            self.add(name, kids)
        self.names = list(self.classes)
        # variants: same submodel names as another class, so that one may replace the other
        for k, base in enumerate([self.names[int(i)] for i in rng.integers(n, size=2)]):
            self.add(f"{tag}v{k}", dict(self.kids[base]))
        self.names = list(self.classes)

    def add(self, name, kids):
        params = {p: value(self.rng) for p in self.rng.permutation(["m", "g", "k_1", "a"])[:int(self.rng.integers(0, 4))]}
        params = {str(k): v for k, v in params.items()}

        @classmethod
        def subs(cls):
            return dict(kids)

        @classmethod
        def defaults(cls):
            return copy.deepcopy(params)
        more = dict(get_default_submodel_config=subs, get_default_params=defaults)
        if self.kind == 0:
            c = type(name, (CompositeModel,), more)
        elif self.kind == 1 or self.rng.integers(2):
            c = model_io(inputs=("u",), outputs=("y",))(type(name, (Model,), {
                **more, "forward": lambda self, inputs: ModelReturn(outputs=self.make_outputs_dict(y=inputs["u"]))}))
        else:
            c = state_space_io(states=("x",), inputs=("u",), outputs=("y",))(type(name, (StateSpaceModel,), {
                **more, "forward": lambda self, states, inputs, mesh=0.0: StateSpaceModelReturn(
                    states_dot=self.make_dict("states_dot", x=inputs["u"]),
                    outputs=self.make_outputs_dict(y=states["x"]))}))
        ModelMaker.add_to_registry(c)
        self.classes[name], self.kids[name], self.params[name] = c, kids, params

    def config(self, name):
        """The default configuration as a plain description."""
        return name, {k: self.config(c) for k, c in self.kids[name].items()}

    def any_config(self, name, level=0):
        kids = {}
        for k, c in self.kids[name].items():
            other = self.names[int(self.rng.integers(len(self.names)))] if self.rng.random() < 0.4 and level < 3 else c
            kids[k] = self.any_config(other if self.depth(other) <= 3 else c, level + 1)
        return name, kids

    def depth(self, name):
        return 1 + max([self.depth(c) for c in self.kids[name].values()], default=0)

    def close(self):
        for c in self.classes.values():
            ModelMaker.remove_from_registry(c)


def tree(d):
    t = ConfigTree(d[0])
    for k, v in d[1].items():
        t.add_child(k, tree(v))
    return t


def kids(t):
    return sorted(t.to_dict()["children"])


def same_config(t, d, path=""):
    equal(t.data, d[0], f"class of the node {path or 'at the root'}")
    require(kids(t) == sorted(d[1]), f"children of {path!r}: {kids(t)} expected {list(d[1])}")
    for k, v in d[1].items():
        same_config(t.get_child(k), v, path + "." + k)


def nodes(d, path=()):
    yield path, d
    for k, v in d[1].items():
        yield from nodes(v, path + (k,))


def default_params(w, d):
    return dict(w.params[d[0]]), {k: default_params(w, v) for k, v in d[1].items()}


def same_value(a, b, what):
    require(np.shape(a) == np.shape(b) and np.array_equal(a, b), f"{what}: {a!r} expected {b!r}")


def same_params(t, p, path=()):
    require(isinstance(t, ParameterTree), "a parameter tree")
    require(sorted(t.data) == sorted(p[0]), f"parameters of {path}: {sorted(t.data)} expected {sorted(p[0])}")
    for k, v in p[0].items():
        same_value(t.data[k], v, f"parameter {k} of {path}")
    require(kids(t) == sorted(p[1]), f"children of {path}: {kids(t)} expected {sorted(p[1])}")
    for k, v in p[1].items():
        same_params(t.get_child(k), v, path + (k,))


def param_tree(p):
    t = ParameterTree(dict(p[0]))
    for k, v in p[1].items():
        t.add_child(k, param_tree(v))
    return t


def any_params(rng, p):
    own = {k: value(rng) for k in p[0]}
    if rng.integers(6) == 0:      # a tree is set as it is: a node may hold other parameters than the defaults
        own = [{}, {**own, "extra": value(rng)}, dict(list(own.items())[1:])][int(rng.integers(3))]
    return own, {k: any_params(rng, v) for k, v in p[1].items()}


def check_model(m, d, w, p, path=()):
    """Class, submodels and own parameters at every node."""
    require(type(m) is w.classes[d[0]], f"class at {path}: {type(m).__name__} expected {d[0]}")
    require(kids(m.get_recursive_params()) == sorted(d[1]), f"submodels at {path}, expected {sorted(d[1])}")
    require(sorted(m._params) == sorted(p[0]), f"own parameters at {path}")
    for k, v in p[0].items():
        same_value(m._params[k], v, f"parameter {k} held at {path}")
    for k in d[1]:
        check_model(m.get_submodel(k), d[1][k], w, p[1][k], path + (k,))


def build(w, rng, params=False):
    name = w.names[int(rng.integers(len(w.names)))]
    kind = int(rng.integers(3))
    if kind == 0:
        d = w.config(name)
        m = [lambda: ModelMaker.make_model_from_name(name), lambda: w.classes[name]()][int(rng.integers(2))]()
    else:
        d = w.any_config(name)
        t = tree(d)
        m = [lambda: ModelMaker.make_model_from_config(t), lambda: w.classes[name](model_config=t)][int(rng.integers(2))]()
        same_config(t, d)
    return m, d


def world(f):
    def run(rng):
        w = World(rng)
        try:
            f(rng, w)
            for n, c in w.classes.items():
                require(ModelMaker.get_model_class(n) is c, "the registry is not changed by building models")
        finally:
            w.close()
    run.__name__ = f.__name__
    return run


@case(60)
@world
def configurations(rng, w):
    for name in w.names:
        same_config(ModelMaker.make_config(name), w.config(name))
        a, b = ModelMaker.make_config(name), ModelMaker.make_config(name)
        for k in w.kids[name]:
            a.replace_subtree(k, ConfigTree("other"))
        same_config(b, w.config(name))
        same_config(ModelMaker.make_config(name), w.config(name))
        require(ModelMaker.get_model_class(name) is w.classes[name], "class of a registered name")
        require(list(w.classes[name].get_submodel_names()) == list(w.kids[name]), "names of the submodels")
        require(w.classes[name].is_leaf() == (not w.kids[name]), "leaf")


@case(60)
@world
def models(rng, w):
    m, d = build(w, rng)
    p = default_params(w, d)
    check_model(m, d, w, p)
    same_params(m.get_recursive_default_params(), p)
    same_params(m.get_recursive_params(), p)
    # a second model shares nothing with the first
    m2 = ModelMaker.make_model_from_config(tree(d))
    q = any_params(rng, p)
    m2.set_recursive_params(param_tree(q))
    check_model(m2, d, w, q)
    check_model(m, d, w, p)
    same_params(m.get_recursive_default_params(), p)
    m3 = w.classes[d[0]](model_config=tree(d), params=param_tree(q))
    check_model(m3, d, w, q)


@case(60)
@world
def parameters(rng, w):
    m, d = build(w, rng)
    p = any_params(rng, default_params(w, d))
    t = param_tree(p)
    m.set_recursive_params(t)
    check_model(m, d, w, p)
    same_params(m.get_recursive_params(), p)
    same_params(t, p)
    entries = [(path, k) for path, (own, _) in nodes_params(p) for k in own]
    if entries:
        # change the tree that was set: the model keeps its own
        path, k = entries[int(rng.integers(len(entries)))]
        full = ".".join(path + (k,))
        t.set_param(full, 77.5)
        check_model(m, d, w, p)
        # change a tree that was read
        r = m.get_recursive_params()
        r.set_param(full, -3.25)
        check_model(m, d, w, p)
        same_params(m.get_recursive_params(), p)
        # set it: exactly that parameter changes
        m.set_recursive_params(r)
        q = put(p, path, k, -3.25)
        check_model(m, d, w, q)
        same_params(m.get_recursive_params(), q)
    # set the parameters of a submodel only
    subs = [n for n in nodes(d) if n[0]]
    if subs:
        path, sd = subs[int(rng.integers(len(subs)))]
        s = m.get_submodel(".".join(path))
        cur = m.get_recursive_params()
        new = any_params(rng, default_params(w, sd))
        s.set_recursive_params(param_tree(new))
        check_model(s, sd, w, new)
        other = m.get_recursive_params()
        cur.replace_subtree(".".join(path), param_tree(new))
        require_equal_trees(other, cur)


def require_equal_trees(a, b, path=()):
    require(sorted(a.data) == sorted(b.data) and kids(a) == kids(b), f"names at {path}")
    for k in a.data:
        same_value(a.data[k], b.data[k], f"parameter {k} of {path}")
    for k in kids(a):
        require_equal_trees(a.get_child(k), b.get_child(k), path + (k,))


def nodes_params(p, path=()):
    yield path, p
    for k, v in p[1].items():
        yield from nodes_params(v, path + (k,))


def without(d, path):
    if len(path) == 1:
        return d[0], {k: v for k, v in d[1].items() if k != path[0]}
    return d[0], {k: without(v, path[1:]) if k == path[0] else v for k, v in d[1].items()}


def put(p, path, k, v):
    if not path:
        return {**p[0], k: v}, p[1]
    return p[0], {n: put(c, path[1:], k, v) if n == path[0] else c for n, c in p[1].items()}


@case(60)
@world
def paths(rng, w):
    m, d = build(w, rng)
    every = [n for n, _ in nodes(d)]
    known = set(every)
    some = [every[int(i)] for i in rng.permutation(len(every))[:12]]
    for delim in (".", "/", "::"):
        for path in some:
            if path:
                s = m.get_submodel(delim.join(path)) if delim == "." and rng.integers(2) else \
                    m.get_submodel(delim.join(path), delimiter=delim)
                x = m
                for k in path:
                    x = x.get_submodel(k)
                require(s is x, f"submodel at {path}")
            raises(KeyError, lambda: m.get_submodel(delim.join(path + ("nope",)), delimiter=delim), "unknown submodel")
            at = int(rng.integers(len(path) + 1))
            for odd in (path[:at] + ("",) + path[at:], path + ("", "")):
                raises(KeyError, lambda: m.get_submodel(delim.join(odd), delimiter=delim), f"path {odd}")
            # a path that is valid further down or further up only
            for q in some:
                full = path + q
                if q and full not in known:
                    raises(KeyError, lambda: m.get_submodel(delim.join(full), delimiter=delim), f"path {full}")


@case(40)
@world
def rejections(rng, w):
    a, b = (w.names[int(i)] for i in rng.integers(len(w.names), size=2))
    if a != b:
        raises(TypeError, lambda: w.classes[a](model_config=tree(w.config(b))), "a configuration for another class")
    t = tree(w.config(a)).to_dict()["children"]
    for n in ("X" + a, a + "X", a[1:], a[:-1], a.lower(), a + " ", " " + a, ""):
        c = ConfigTree.from_dict({"data": n, "children": t})
        raises(TypeError, lambda: w.classes[a](model_config=c), f"a configuration for a class named {n!r}")
        if n not in w.classes:
            raises(KeyError, lambda: ModelMaker.make_model_from_config(c), f"a configuration for a class named {n!r}")
    derived = type(a + "_derived", (w.classes[a],), {})
    raises(TypeError, lambda: derived(model_config=ConfigTree.from_dict({"data": a, "children": t})),
           "a configuration for the class a class derives from")
    raises(TypeError, lambda: w.classes[a](model_config=ConfigTree.from_dict({"data": derived.__name__, "children": t})),
           "a configuration for a class derived from a class")
    raises(ValueError, lambda: ModelMaker.add_to_registry(w.classes[a]), "a name registered twice")
    other = type(a, (CompositeModel,), {})
    raises(ValueError, lambda: ModelMaker.add_to_registry(other), "another class of a registered name")
    require(ModelMaker.get_model_class(a) is w.classes[a], "a refused registration leaves the registered class")
    for f in (ModelMaker.get_model_class, ModelMaker.make_config, ModelMaker.make_model_from_name):
        raises(KeyError, lambda: f(a + "?"), "a name that is not registered")
    raises(KeyError, lambda: ModelMaker.make_model_from_config(ConfigTree(a + "?")), "configuration of no known class")
    fresh = type(a + "_fresh", (CompositeModel,), {})
    raises(KeyError, lambda: ModelMaker.remove_from_registry(fresh), "removing a name that is not registered")
    ModelMaker.add_to_registry(fresh)
    require(type(ModelMaker.make_model_from_name(fresh.__name__)) is fresh, "a class added later")
    ModelMaker.remove_from_registry(fresh)
    raises(KeyError, lambda: ModelMaker.get_model_class(fresh.__name__), "a removed class")
    d = w.config(a)
    bad = [n for n in nodes(d) if n[0]]
    if bad:
        path, sd = bad[int(rng.integers(len(bad)))]
        t = tree(without(d, path))
        raises(KeyError, lambda: ModelMaker.make_model_from_config(t), "a configuration without one of the submodels")
        q = param_tree(without(default_params(w, d), path))
        m = ModelMaker.make_model_from_name(a)
        raises(KeyError, lambda: m.set_recursive_params(q), "parameters without those of one of the submodels")


@case(20)
def evaluation(rng):
    """Parameters reach the evaluation of the submodel they are set for."""
    COUNT[0] += 1
    classes = []

    def leaf(name):
        @model_io(inputs=("u",), outputs=("y",))
        class C(Model):
            @classmethod
            def get_default_params(cls):
                return {"k": 2.0}

            def forward(self, inputs):
                return ModelReturn(outputs=self.make_outputs_dict(y=self._params["k"] * inputs["u"]))
        C.__name__ = name
        ModelMaker.add_to_registry(C)
        classes.append(C)
        return C
    n = f"E{COUNT[0]}"
    leaf(n + "a"), leaf(n + "b")

    @model_io(inputs=("u",), outputs=("z",))
    class Top(Model):
        @classmethod
        def get_default_submodel_config(cls):
            return {"p": n + "a", "q": n + "a"}

        @classmethod
        def get_default_params(cls):
            return {"k": 5.0}

        def forward(self, inputs):
            p = self.call_submodel("p", inputs=dict(u=inputs["u"]))
            q = self.call_submodel("q", inputs=dict(u=2 * inputs["u"]))
            return ModelReturn(outputs=self.make_outputs_dict(z=self._params["k"] + p.outputs["y"] - q.outputs["y"]))
    Top.__name__ = n + "top"
    try:
        ModelMaker.add_to_registry(Top)
        classes.append(Top)
        m = ModelMaker.make_model_from_name(n + "top")
        a, b, c, u = (float(v) for v in rng.normal(size=4))
        t = m.get_recursive_params()
        t.set_param("k", a), t.set_param("p.k", b), t.set_param("q.k", c)
        for r in (m.apply_and_forward(dict(u=u), t), m.forward(dict(u=u))):
            require(abs(r.outputs["z"] - (a + b * u - 2 * c * u)) < 1e-9, f"own output {r.outputs}")
            require(abs(r.outputs["p.y"] - b * u) < 1e-9 and abs(r.outputs["q.y"] - 2 * c * u) < 1e-9,
                    f"outputs of the submodels {r.outputs}")
    finally:
        for c in classes:
            ModelMaker.remove_from_registry(c)

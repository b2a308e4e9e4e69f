"""C14: composed models follow their configuration, hold exactly their own parameters, and are found by path."""
from contracts.common import *
from lumver import rt
from lumver.seq import SDict
import lumos.models.composition as comp
from lumos.models.composition import CompositeModel, ModelMaker
from lumos.models.base import Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io
from lumos.models.tree_utils import ConfigTree, ParameterTree

assume_note("Names of submodels are distinct and hold no delimiter; class names of the registry are arbitrary distinct names.")

# shapes of model trees: (number of own parameters, submodels)
SHAPES = [(0, []), (2, []), (1, [(1, [])]), (0, [(1, []), (2, [])]), (1, [(0, [(1, [])]), (1, [])]),
          (0, [(1, [(0, [(2, [])])])]), (1, [(0, []), (1, [(1, []), (0, [])]), (2, [])])]


@model_io()
class PlainModel(Model):
    def forward(self, inputs):
        return ModelReturn()


@state_space_io()
class PlainStateSpace(StateSpaceModel):
    def forward(self, states, inputs, mesh):
        return StateSpaceModelReturn()


class Spec:
    """A model class with symbolic submodel names; parameters are arbitrary values."""

    def __init__(self, shape, tag, base=CompositeModel):
        self.tag, self.base, (self.own, kids) = tag, base, shape
        self.name = "Class_" + tag
        self.kids = [(name_of(f"sub{tag}", j), Spec(s, f"{tag}{j}", base)) for j, s in enumerate(kids)]
        kids_cfg = [(n, c.name) for n, c in self.kids]
        own = [(name_of(f"par{tag}", k), sym(f"default{tag}_{k}")) for k in range(self.own)]
        self.defaults = own

        class C(base):
            @classmethod
            def get_default_submodel_config(cls):
                return SDict(dict(kids_cfg))

            @classmethod
            def get_default_params(cls):
                return SDict(dict(own))
        C.__name__ = self.name
        self.cls = C

    def all(self):
        yield self
        for _, c in self.kids:
            yield from c.all()

    def nodes(self, path=()):
        yield path, self
        for n, c in self.kids:
            yield from c.nodes(path + (n,))

    def config(self):
        t = ConfigTree(self.name)
        for n, c in self.kids:
            t.add_child(name=n, subtree=c.config())
        return t

    def values(self, pre):
        return lambda tag, k: sym(f"{pre}{tag}_{k}")

    def params(self, val):
        t = ParameterTree(SDict({n: val(self.tag, k) for k, (n, _) in enumerate(self.defaults)}))
        for n, c in self.kids:
            t.add_child(name=n, subtree=c.params(val))
        return t

    def check_config(self, t, what):
        CTX.require(what + ": class", t.data == self.name)
        CTX.require(what + ": number of submodels", len(t._children) == len(self.kids))
        for n, c in self.kids:
            c.check_config(t.get_child(n), what)

    def check_params(self, t, val, what):
        CTX.require(what + ": number of own parameters", len(t.data) == self.own)
        for k, (n, _) in enumerate(self.defaults):
            CTX.require_eq(what + ": own parameter", t.data[n], val(self.tag, k))
        CTX.require(what + ": number of submodels", len(t._children) == len(self.kids))
        for n, c in self.kids:
            c.check_params(t.get_child(n), val, what)

    def check_model(self, m, val, what):
        CTX.require(what + ": class", type(m) is self.cls)
        CTX.require(what + ": number of own parameters", len(m._params) == self.own)
        for k, (n, _) in enumerate(self.defaults):
            CTX.require_eq(what + ": own parameter", m._params[n], val(self.tag, k))
        for n, c in self.kids:
            c.check_model(m.get_submodel(n), val, what)


def default(tag, k):
    return sym(f"default{tag}_{k}")


def value(pre):
    return lambda tag, k: sym(f"{pre}{tag}_{k}")


def world():
    s = Spec(SHAPES[CTX.choose(len(SHAPES))], "r", [CompositeModel, PlainModel, PlainStateSpace][CTX.choose(3)])
    register(s)
    return s


def register(s):
    for c in s.all():
        try:
            ModelMaker.remove_from_registry(c.cls)      # left by another path
        except KeyError:
            pass
        ModelMaker.add_to_registry(c.cls)


@goal("configurations: the class and, at every level, the submodels' classes by name")
def configs():
    s = world()
    s.check_config(ModelMaker.make_config(s.name), "default configuration")
    CTX.require("class of a name", ModelMaker.get_model_class(s.name) is s.cls)
    a, b = ModelMaker.make_config(s.name), ModelMaker.make_config(s.name)
    for n, _ in s.kids:
        a.replace_subtree(n, ConfigTree("changed"))
    s.check_config(b, "another configuration")
    s.check_config(ModelMaker.make_config(s.name), "a later configuration")


@goal("models: of the configured classes at every level, with the defaults or the given parameters")
def models():
    s = world()
    how = CTX.choose(4)
    if how == 0:
        m = ModelMaker.make_model_from_name(s.name)
    elif how == 1:
        m = s.cls()
    elif how == 2:
        m = ModelMaker.make_model_from_config(s.config())
    else:
        m = s.cls(model_config=s.config(), params=s.params(value("given")))
    val = value("given") if how == 3 else default
    s.check_model(m, val, "model")
    s.check_params(m.get_recursive_params(), val, "parameters read")
    s.check_params(m.get_recursive_default_params(), default, "default parameters")


@goal("a variant in place of a submodel of the default configuration")
def variants():
    s = world()
    other = Spec(SHAPES[CTX.choose(4)], "v", s.base)
    register(other)
    at = [(p, c) for p, c in s.nodes() if p]
    if not at:
        return
    path, _ = at[CTX.choose(len(at))]
    t = ModelMaker.make_config(s.name)
    full = path[0]
    for n in path[1:]:
        full = rt.fstr(full, ".", n)
    t.replace_subtree(full, ModelMaker.make_config(other.name))
    m = ModelMaker.make_model_from_config(t)

    def replaced(sp, p):
        r = Spec.__new__(Spec)
        r.__dict__.update(sp.__dict__)
        r.kids = [(n, (other if len(p) == 1 else replaced(c, p[1:])) if n is p[0] else c) for n, c in sp.kids]
        return r
    want = replaced(s, path)
    want.check_model(m, default, "model")
    want.check_params(m.get_recursive_params(), default, "parameters")


@goal("parameters: set and read back at every level; later changes of either side do not reach the other")
def parameters():
    s = world()
    m = s.cls()
    t = s.params(value("new"))
    m.set_recursive_params(t)
    s.check_model(m, value("new"), "after setting")
    got = m.get_recursive_params()
    s.check_params(got, value("new"), "read back")
    s.check_params(t, value("new"), "the tree that was set")
    entries = [(p, c, k) for p, c in s.nodes() for k in range(c.own)]
    if not entries:
        return
    path, c, k = entries[CTX.choose(len(entries))]
    full = c.defaults[k][0]
    for n in reversed(path):
        full = rt.fstr(n, ".", full)
    x = sym("other")
    which = CTX.choose(3)
    if which == 0:
        t.set_param(full, x)
        s.check_model(m, value("new"), "after changing the tree that was set")
    elif which == 1:
        got.set_param(full, x)
        s.check_model(m, value("new"), "after changing the tree that was read")
        s.check_params(m.get_recursive_params(), value("new"), "read once more")
    got.set_param(full, x)
    m.set_recursive_params(got)
    s.check_model(m, lambda tag, j: x if tag == c.tag and j == k else value("new")(tag, j), "one parameter changed")
    m2 = s.cls()
    s.check_model(m2, default, "another model of the class")


@goal("submodels by path, for any delimiter; unknown names are refused at every level")
def paths():
    s = world()
    m = s.cls()
    delim = [".", "/", "::"][CTX.choose(3)]
    every = list(s.nodes())
    path, c = every[CTX.choose(len(every))]
    at = m
    for n in path:
        at = at.get_submodel(n)

    def joined(p):
        r = p[0]
        for n in p[1:]:
            r = rt.fstr(r, delim, n)
        return r
    get = (lambda p: m.get_submodel(p)) if delim == "." and CTX.choose(2) else (lambda p: m.get_submodel(p, delim))
    if path:
        CTX.require("the submodel of that path", get(joined(path)) is at)
    else:
        CTX.require("class", type(at) is c.cls)
    expect_raises("an unknown name", KeyError, get, joined(path + (name_of("unknown", const(0)),)))
    if path:
        expect_raises("a name of another level", KeyError, get, joined(path + (path[0],)))


@goal("registry and construction refuse: repeated and unknown names, configurations of another class, missing parts")
def refusals():
    s = world()
    other = type(s.name, (CompositeModel,), {})
    expect_raises("a name registered twice", ValueError, ModelMaker.add_to_registry, other)
    CTX.require("the registered class stays", ModelMaker.get_model_class(s.name) is s.cls)
    for f in (ModelMaker.get_model_class, ModelMaker.make_config, ModelMaker.make_model_from_name):
        expect_raises("an unknown name", KeyError, f, "Class_unknown")
    expect_raises("removing an unknown name", KeyError, ModelMaker.remove_from_registry, type("Class_x", (), {}))
    expect_raises("configuration of an unknown class", KeyError, ModelMaker.make_model_from_config, ConfigTree("Class_x"))
    wrong = Spec((0, []), "w")
    expect_raises("configuration of another class", TypeError, s.cls, model_config=wrong.config())
    expect_raises("configuration of another class", TypeError, wrong.cls, model_config=s.config())
    inner = [(p, c) for p, c in s.nodes() if p]
    if inner:
        path, c = inner[CTX.choose(len(inner))]
        t = s.config()
        node = t
        for n in path[:-1]:
            node = node.get_child(n)
        node._children.pop(path[-1])
        expect_raises("a configuration without a submodel", KeyError, ModelMaker.make_model_from_config, t)
        m = s.cls()
        q = s.params(value("new"))
        node = q
        for n in path[:-1]:
            node = node.get_child(n)
        node._children.pop(path[-1])
        expect_raises("parameters without those of a submodel", KeyError, m.set_recursive_params, q)
    ModelMaker.remove_from_registry(s.cls)
    expect_raises("a removed name", KeyError, ModelMaker.get_model_class, s.name)
    ModelMaker.add_to_registry(s.cls)
    CTX.require("registered again", ModelMaker.get_model_class(s.name) is s.cls)


class Tree:
    """Contract of a subtree: nothing but its place."""

    def __init__(self, what, k):
        self.what, self.k = what, k

    def __sym_rename__(self, k, n, to):
        return Tree(self.what, rt.rename(self.k, k, n, to))


class Sub:
    """Contract of a submodel: records the parameters it is handed, and its own are known by its position."""
    log = None

    def __init__(self, k):
        self.k = k

    def __sym_rename__(self, k, n, to):
        return Sub(rt.rename(self.k, k, n, to))

    def set_recursive_params(self, t):
        Sub.log.append((self.k, t))

    def get_recursive_params(self):
        return Tree("params", self.k)

    def get_recursive_default_params(self):
        return Tree("default", self.k)


@goal("one level with any number of submodels (with the goals above: models of every size)")
def any_number():
    K = CTX.size("K", 1)
    kids = names("kid", K)
    own = names("own", CTX.size("n_own", 0))
    from lumver.seq import NameMap, SymMap

    class Node(CompositeModel):
        @classmethod
        def get_default_submodel_config(cls):
            return SymMap(kids, SymSeq([("map", K, lambda k: name_of("type", k))]))

        @classmethod
        def get_default_params(cls):
            d = SDict()
            d.sym = [NameMap(own, lambda k: read("own_default", [k]))]
            return d
    Sub.log = SList()

    class MM:
        """Contract of the maker: the configuration of a name, the model of a configuration."""
        make_config = staticmethod(lambda t: Tree("config", position(t)))

        @staticmethod
        def make_model_from_config(c):
            CTX.require("the configuration of the submodel", c.what == "config")
            return Sub(c.k)
    position = lambda t: t.parts[0].k
    real = comp.ModelMaker
    comp.ModelMaker = MM
    try:
        t = Node.get_recursive_default_model_config()
        CTX.require("class of the node", t.data == "Node")
        i = idx("i", K)
        c = t.get_child(name_of("kid", i))
        CTX.require("a configuration", c.what == "config")
        CTX.require_eq("of the submodel's class", c.k, i)
        CTX.require_eq("number of submodels", count(t._children), K)
        m = Node()
        CTX.require_eq("the submodel of the name", m.get_submodel(name_of("kid", i)).k, i)
        handed("default", K)
        Sub.log = SList()
        d = SDict()
        d.sym = [NameMap(own, lambda k: read("own_new", [k]))]
        p = ParameterTree(d)
        extra = SDict()
        extra.sym = [SymMap(kids, SymSeq([("map", K, lambda k: Tree("new", k))]))]
        p._children = extra
        m.set_recursive_params(p)
        handed("new", K)
        j = idx("j", rt.b_len(own))
        r = m.get_recursive_params()
        CTX.require_eq("own parameter", m._params[name_of("own", j)], read("own_new", [j]))
        CTX.require_eq("own parameter read back", r.data[name_of("own", j)], read("own_new", [j]))
        q = r.get_child(name_of("kid", i))
        CTX.require("a submodel's parameters", q.what == "params")
        CTX.require_eq("of that submodel", q.k, i)
        CTX.require_eq("number of submodels", count(r._children), K)
    finally:
        comp.ModelMaker = real


def count(d):
    n = const(dict.__len__(d))
    for m in d.sym or []:
        n = n + rt.b_len(m.k)
    return n


def handed(what, K):
    s = Sub.log.seq()
    CTX.require_eq("one call per submodel", s.length(), K)
    i = idx("call", K)
    k, t = s.get(i)
    CTX.require("each submodel once, in some order", bool(eq(k, i)) or bool(eq(k, K - 1 - i)))
    CTX.require(f"{what} parameters", t.what == what)
    CTX.require_eq("its own", t.k, k)


@canary("every submodel of the first one's class must be refuted")
def same_class():
    s = world()
    t = ModelMaker.make_config(s.name)
    for n, c in s.kids:
        CTX.require("class", t.get_child(n).data == s.kids[0][1].name)


@canary("parameters of the node handed to its submodels must be refuted")
def shared():
    s = world()
    m = s.cls()
    m.set_recursive_params(s.params(value("new")))
    for n, c in s.kids:
        for k in range(min(c.own, s.own)):
            CTX.require_eq("parameter", m.get_submodel(n)._params[c.defaults[k][0]], value("new")(s.tag, k))

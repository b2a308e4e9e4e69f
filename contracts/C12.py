"""C12: parameter trees: lossless flattening, precise get and set."""
from contracts.common import *
from lumver import rt, symnp
from lumver.seq import NameMap, SDict
import numpy as np
from lumos.models.tree_utils import Tree, ParameterTree, ConfigTree


class Obj:
    """An arbitrary leaf value: nothing is known but its identity."""

    def __init__(self, tag):
        self.tag = tag

    def __deepcopy__(self, memo):
        return Obj(self.tag)

    def __eq__(self, o):
        return isinstance(o, Obj) and o.tag == self.tag

    __hash__ = None

    def __repr__(self):
        return f"<{self.tag}>"


# shapes of trees: (number of own entries, children)
SHAPES = [(0, []), (1, []), (2, []), (0, [(1, [])]), (1, [(1, []), (2, [])]), (2, [(0, []), (1, [])]),
          (1, [(1, [(1, [])])]), (0, [(2, [(0, [(1, [])]), (1, [])]), (1, [])]), (1, [(0, [(0, [(1, [(2, [])])])])])]


class Spec:
    """The intended content of a tree; names of siblings are distinct, everything else is arbitrary."""
    by_children = False         # build with the children given at once

    def __init__(self, shape, tag, kind, value=None):
        n, ch = shape
        self.kind = kind
        value = value or (lambda t: Obj(t))
        if kind is ParameterTree:
            self.data = [(name_of(f"key{tag}", k), value(f"{tag}:{k}")) for k in range(n)]
        else:
            self.data = f"type {tag}"
        self.children = [(name_of(f"child{tag}", j), Spec(c, f"{tag}.{j}", kind, value)) for j, c in enumerate(ch)]

    def build(self):
        d = dict(self.data) if self.kind is ParameterTree else self.data
        if self.by_children:
            return self.kind(d, {n: c.build() for n, c in self.children})
        t = self.kind(d)
        for n, c in self.children:
            t.add_child(name=n, subtree=c.build())
        return t

    def as_dict(self):
        return {"data": dict(self.data) if self.kind is ParameterTree else self.data,
                "children": {n: c.as_dict() for n, c in self.children}}

    def check(self, t, what):
        CTX.require(what + ": type", type(t) is self.kind)
        if self.kind is ParameterTree:
            same_dict(what, t.data, dict(self.data))
        else:
            CTX.require(what + ": data", t.data == self.data)
        CTX.require(what + ": number of children", len(t._children) == len(self.children))
        for n, c in self.children:
            c.check(t.get_child(n), what)

    def leaves(self, pre=""):
        """(path, value) of every entry."""
        if self.kind is ParameterTree:
            for n, v in self.data:
                yield rt.fstr(pre, ".", n) if pre else n, v
        else:
            yield pre, self.data
        for n, c in self.children:
            yield from c.leaves(rt.fstr(pre, ".", n) if pre else n)

    def nodes(self, pre=""):
        yield pre, self
        for n, c in self.children:
            yield from c.nodes(rt.fstr(pre, ".", n) if pre else n)

    def set(self, path, value):
        """Copy with one entry replaced."""
        r = Spec.__new__(Spec)
        r.kind = self.kind
        k, rest = path[0], path[1:]
        r.data, r.children = self.data, list(self.children)
        if not rest:
            if self.kind is ParameterTree:
                r.data = [(n, value if j == k else v) for j, (n, v) in enumerate(self.data)]
        else:
            r.children = [(n, c.set(rest, value) if j == k else c) for j, (n, c) in enumerate(self.children)]
        return r

    def renamed(self):
        """Copy with another class at every node."""
        r = Spec.__new__(Spec)
        r.kind, r.data = self.kind, "new " + self.data
        r.children = [(n, c.renamed()) for n, c in self.children]
        return r

    def entries(self, pre=()):
        """(positions of the children on the way + position of the entry, path)"""
        for j in range(len(self.data)):
            yield pre + (j,), self.path(pre + (j,))
        for j, (n, c) in enumerate(self.children):
            yield from ((((j,) + e), rt.fstr(n, ".", p)) for e, p in c.entries())

    def path(self, e):
        return self.data[e[0]][0] if len(e) == 1 else rt.fstr(self.children[e[0]][0], ".",
                                                              self.children[e[0]][1].path(e[1:]))


def same_dict(what, got, want):
    CTX.require(what + ": number of entries", len(got) == len(want))
    for k, v in want.items():
        CTX.require(what + ": entry present", rt.isin_(k, got))
        g = got[k]
        if isinstance(v, dict):
            CTX.require(what + ": nested", isinstance(g, dict))
            same_dict(what, g, v)
        elif isinstance(v, P):
            CTX.require_eq(what + ": value", g, v)
        else:
            CTX.require(what + ": value", type(g) is type(v) and g == v)


def some_shape():
    return SHAPES[CTX.choose(len(SHAPES))]


def some_kind():
    return [ParameterTree, ConfigTree][CTX.choose(2)]


@goal("tree -> dictionary -> tree: the same content, and nothing shared")
def dictionary():
    s = Spec(some_shape(), "r", some_kind())
    t = s.build()
    d = t.to_dict()
    same_dict("to_dict", d, s.as_dict())
    u = type(t).from_dict(d)
    s.check(u, "from_dict")
    wreck(d)
    s.check(t, "after changing the dictionary")
    s.check(u, "after changing the dictionary")
    if s.kind is ParameterTree:
        wreck_tree(u)
        s.check(t, "after changing the copy")


def wreck(d):
    for k in list(d):
        if isinstance(d[k], dict):
            wreck(d[k])
    d["junk"] = 1


def wreck_tree(t):
    for c in list(t._children.values()):
        wreck_tree(c)
    t.data["junk"] = 1
    t.add_child("junk", ParameterTree({}))


@goal("tree -> flat names -> tree")
def flat_names():
    s = Spec(some_shape(), "r", ParameterTree)
    s.by_children = CTX.choose(2) == 1
    t = s.build()
    flat, tree_def = t.to_flat_dict()
    same_dict("flat dictionary", flat, dict(s.leaves()))
    u = ParameterTree.from_flat_dict(tree_def, flat)
    s.check(u, "from_flat_dict")
    s.check(t, "the original")
    # other values under the same names, in any order
    other = {k: Obj(f"new {j}") for j, (k, v) in enumerate(reversed(list(s.leaves())))}
    u = ParameterTree.from_flat_dict(tree_def, other)
    same_dict("restored values", dict((p, u.get_param(p)) for p, _ in s.leaves()), other)
    s.check(t, "the original")
    leaves, aux = t.tree_flatten()
    CTX.require("leaves in the order of the names", [x for x in leaves] == list(flat.values()) and
                all(bool(rt.val_eq(a, b)) for a, b in zip(aux[1], flat)))
    s.check(ParameterTree.tree_unflatten(aux, leaves), "tree_unflatten")
    leaves2, aux2 = u.tree_flatten()
    CTX.require("one description for trees of one structure", aux == aux2)


@goal("configuration trees: flat names")
def config_names():
    s = Spec(some_shape(), "r", ConfigTree)
    t = s.build()
    flat, tree_def = t.to_flat_dict()
    same_dict("flat dictionary", flat, dict(s.leaves()))
    s.check(t, "the original")
    s.check(ConfigTree.from_flat_dict(tree_def, flat), "from_flat_dict")
    other = s.renamed()
    other.check(ConfigTree.from_flat_dict(tree_def, dict(other.leaves())), "other classes under the flat names")
    s.check(t, "the original")
    kids = {n: c.build() for n, c in s.children}
    s.check(ConfigTree(s.data, kids), "construction with children")


@goal("get and set by path: the named parameter and nothing else, for any delimiter")
def get_set():
    s = Spec(some_shape(), "r", ParameterTree)
    t = s.build()
    es = list(s.entries())
    delim = [".", "/", "::"][CTX.choose(3)]

    def conv_path(p):
        if isinstance(p, str):
            return p.replace(".", delim)
        return rt.simpl(SymStr([x.replace(".", delim) if isinstance(x, str) else x for x in p.parts]))
    kw = {} if delim == "." else {"delimiter": delim}
    for e, p in es:
        CTX.require("read", t.get_param(conv_path(p), **kw) == value_at(s, e))
    if es:
        e, p = es[CTX.choose(len(es))]
        v = Obj("written")
        t.set_param(conv_path(p), v, **kw)
        s2 = s.set(e, v)
        s2.check(t, "after writing one parameter")
        CTX.require("read what was written", t.get_param(conv_path(p), **kw) is v)
        q, w = es[CTX.choose(len(es))], Obj("again")
        t.set_param(conv_path(q[1]), w, **kw)
        s2.set(q[0], w).check(t, "after writing another")
    # paths that do not exist
    for pre, node in s.nodes():
        for bad in ("nope", "nope.nope"):
            b = rt.fstr(pre, ".", bad) if pre else bad
            expect_raises("reading an unknown path", KeyError, t.get_param, conv_path(b), **kw)
            expect_raises("writing an unknown path", KeyError, t.set_param, conv_path(b), Obj("x"), **kw)
    for n, c in s.children:
        expect_raises("a child is no parameter", KeyError, t.set_param, n, Obj("x"))


def value_at(s, e):
    return s.data[e[0]][1] if len(e) == 1 else value_at(s.children[e[0]][1], e[1:])


@goal("get and set in a node with any number of parameters and arbitrary other branches")
def any_size():
    n = CTX.size("n", 1)
    depth = CTX.choose(4)
    data = SDict()
    data.sym = [NameMap(names("key", n), lambda k: read("v", [k]))]
    node = ParameterTree(data)
    t, path = node, ""
    side = []
    for j in range(depth):
        up = ParameterTree({f"own{j}": Obj(f"own{j}")})
        other = ParameterTree({"x": Obj("x")})
        side.append((up, other))
        up.add_child("left", other)
        up.add_child("mid", t)
        up.add_child("right", other)
        t = up
        path = "mid." + path
    h, k = idx("h", n), idx("k", n)
    CTX.assume(bnot(eq(h, k)))
    ph, pk = rt.fstr(path, name_of("key", h)), rt.fstr(path, name_of("key", k))
    CTX.require_eq("read", t.get_param(pk), read("v", [k]))
    v = sym("new")
    t.set_param(ph, v)
    CTX.require_eq("read what was written", t.get_param(ph), v)
    CTX.require_eq("the others keep their value", t.get_param(pk), read("v", [k]))
    for up, other in side:
        CTX.require("other nodes", len(up.data) == 1 and len(other.data) == 1 and len(up._children) == 3)
    expect_raises("unknown parameter", KeyError, t.set_param, rt.fstr(path, "nope"), v)
    expect_raises("unknown branch", KeyError, t.get_param, rt.fstr("nope.", path, name_of("key", k)))
    w = sym("second")
    t.set_param(pk, w)
    CTX.require_eq("read what was written", t.get_param(pk), w)
    CTX.require_eq("the first write stays", t.get_param(ph), v)


@goal("replace_subtree: that branch and nothing else")
def replace():
    s = Spec(some_shape(), "r", some_kind())
    t = s.build()
    new = Spec((1, [(1, [])]), "new", s.kind)
    nodes = [(p, c) for p, c in s.nodes() if p]
    if nodes:
        p, c = nodes[CTX.choose(len(nodes))]
        t.replace_subtree(p, new.build())
        sub_check(s, t, c, new)
    for bad in ("nope", "nope.nope"):
        expect_raises("an unknown branch", KeyError, t.replace_subtree, bad, new.build())
    expect_raises("something else than a tree", TypeError, t.replace_subtree, nodes[0][0] if nodes else "x", {})


def sub_check(s, t, c, new):
    if s is c:
        return new.check(t, "the replaced branch")
    CTX.require("data", len(t._children) == len(s.children))
    if s.kind is ParameterTree:
        same_dict("data", t.data, dict(s.data))
    else:
        CTX.require("data", t.data == s.data)
    for n, q in s.children:
        sub_check(q, t.get_child(n), c, new)


class Abstract(ParameterTree):
    """A subtree of any size, by its contract: an opaque dictionary, and flat names below the prefix."""

    def __init__(self, tag):
        super().__init__({})
        self.tag = tag
        self.n = CTX.size(f"n_{tag}", 0)

    def to_dict(self):
        return Token(self.tag)

    def _make_flat_dict(self, prefix=""):
        d = SDict()
        d.sym = [NameMap(SymSeq([("map", self.n, lambda k: rt.fstr(prefix, ".", name_of(f"path_{self.tag}", k)))]),
                         lambda k: read(f"val_{self.tag}", [k]))]
        return d


class Token:
    def __init__(self, tag):
        self.tag = tag

    def __deepcopy__(self, memo):
        return Token(self.tag)

    def items(self):
        raise Unsupported("content of an abstract dictionary")

    __getitem__ = __iter__ = items


@goal("one step of the recursions for children of any size (with the step above: trees of every depth)")
def step():
    own = CTX.choose(3)
    kids = [Abstract(f"c{j}") for j in range(CTX.choose(4))]
    t = ParameterTree(SDict({f"key{k}": sym(f"o{k}") for k in range(own)}), {f"kid{j}": c for j, c in enumerate(kids)})
    which = CTX.choose(2)
    if which == 0:
        d = t.to_dict()
        CTX.require("keys", sorted(d) == ["children", "data"])
        same_dict("own data", d["data"], {f"key{k}": sym(f"o{k}") for k in range(own)})
        CTX.require("every child under its name", {k: v.tag for k, v in d["children"].items()}
                    == {f"kid{j}": c.tag for j, c in enumerate(kids)})
        real = Tree.__dict__["from_dict"].__func__

        def from_dict(cls, x):
            if isinstance(x, Token):
                c = Abstract(x.tag + "'")
                c.origin = x.tag
                return c
            return real(cls, x)
        Tree.from_dict = classmethod(from_dict)
        try:
            u = ParameterTree.from_dict(d)
        finally:
            Tree.from_dict = classmethod(real)
        CTX.require("every child restored under its name", {k: v.origin for k, v in u._children.items()}
                    == {f"kid{j}": c.tag for j, c in enumerate(kids)})
        same_dict("own data restored", u.data, {f"key{k}": sym(f"o{k}") for k in range(own)})
        return
    prefix = ["", "pre", "pre.fix"][CTX.choose(3)]
    f = t._make_flat_dict(prefix=prefix) if prefix else t._make_flat_dict()
    pre = prefix + "." if prefix else ""
    for k in range(own):
        CTX.require_eq("own parameter", f[f"{pre}key{k}"], sym(f"o{k}"))
    for j, c in enumerate(kids):
        k = idx(f"k{j}", c.n) if not CTX.prove(eq(c.n, const(0))) else None
        if k is not None:
            CTX.require_eq("parameter of a child", f[rt.fstr(f"{pre}kid{j}.", name_of(f"path_c{j}", k))],
                           read(f"val_c{j}", [k]))
    ks = f.keys()
    want = SymSeq([("lit", [f"{pre}key{k}" for k in range(own)])] +
                  [("map", c.n, lambda k, j=j: rt.fstr(f"{pre}kid{j}.", name_of(f"path_c{j}", k)))
                   for j, c in enumerate(kids)])
    from lumver.seq import SymSet
    CTX.require("and no other name", ks == SymSet([want]) if isinstance(ks, SymSet) else set(ks) == set(want.items()))


def some_value(tag):
    """A leaf: a number, or an array of rank one or two of any size (zero and one included)."""
    r = CTX.choose(4)
    if r == 0:
        return sym(f"s{tag}"), ()
    dims = [CTX.size(f"d{tag}_{k}", 0) for k in range(r)] if r < 3 else [const(1), CTX.size(f"d{tag}_1", 0)]
    return arr(f"a{tag}", *dims), tuple(dims)


def leaf_at(tag, *ix):
    return read(f"a{tag}", list(ix))


@goal("flattening to a vector: every leaf in its place, and back for any other vector")
def vectors():
    nl = 1 + CTX.choose(3)
    vals = [some_value(str(j)) for j in range(nl)]
    where = CTX.choose(2)
    # the leaves spread over a tree
    t = ParameterTree({"p0": vals[0][0]})
    if nl > 1:
        c = ParameterTree({"p1": vals[1][0]} if where else {})
        t.add_child("c", c)
        if not where:
            c.add_child("d", ParameterTree({"p1": vals[1][0]}))
    if nl > 2:
        t.data["p2"] = vals[2][0]
    order = [0] + ([2] if nl > 2 else []) + ([1] if nl > 1 else [])
    paths = {0: "p0", 1: "c.p1" if where else "c.d.p1", 2: "p2"}
    flat, unravel = t.tree_ravel()
    off, tot = {}, const(0)
    for j in order:
        off[j] = tot
        sz = const(1)
        for d in vals[j][1]:
            sz = sz * d
        tot = tot + sz
    shape_is("vector", flat, tot)
    u = unravel(vec("new", tot))
    check_vals(t, paths, vals, order, lambda j, *ix: leaf_at(j, *ix) if ix else sym(f"s{j}"), "the original")
    for j in order:
        dims = vals[j][1]
        if any(CTX.prove(eq(d, const(0))) for d in dims):
            continue
        ix = [idx(f"i{j}{k}", d) for k, d in enumerate(dims)]
        lin = off[j] + (const(0) if not ix else ix[0] if len(ix) == 1 else ix[0] * dims[1] + ix[1])
        CTX.require_eq("position in the vector", elem(flat, lin), leaf_at(j, *ix) if ix else sym(f"s{j}"))
        g = u.get_param(paths[j])
        if dims:
            shape_is("restored shape", g, *dims)
            CTX.require_eq("restored value", elem(g, *ix), read("new", [lin]))
        else:
            CTX.require("a number", isinstance(g, P) or g.ndim == 0)
            CTX.require_eq("restored value", g if isinstance(g, P) else g.el(), read("new", [lin]))
    back = unravel(flat)
    check_vals(back, paths, vals, order, lambda j, *ix: leaf_at(j, *ix) if ix else sym(f"s{j}"), "restored")


def check_vals(t, paths, vals, order, want, what):
    for j in order:
        dims = vals[j][1]
        g = t.get_param(paths[j])
        if not dims:
            CTX.require_eq(what, g if isinstance(g, P) else g.el(), want(j))
            continue
        shape_is(what, g, *dims)
        if not any(CTX.prove(eq(d, const(0))) for d in dims):
            ix = [idx(f"w{j}{k}", d) for k, d in enumerate(dims)]
            CTX.require_eq(what, elem(g, *ix), want(j, *ix))


@canary("column-major flattening must be refuted")
def wrong():
    a, b = CTX.size("a", 2), CTX.size("b", 2)
    flat, _ = ParameterTree({"m": arr("m", a, b)}).tree_ravel()
    i, j = idx("i", a), idx("j", b)
    CTX.require_eq("column major", elem(flat, j * a + i), read("m", [i, j]))


assume_note("names of siblings are distinct and hold no delimiter")
assume_note("flat-name round trip, get/set and replace: tree shapes up to depth 5 from a fixed list, names and values "
            "arbitrary; dictionary and flat-name recursion: every size by one inductive step; vectors: up to three "
            "leaves of any shape up to rank two")

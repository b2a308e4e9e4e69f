"""Runtime contract: parameter trees flatten losslessly and are read and written precisely."""
import copy

import casadi as cas
import jax
import numpy as np

from concrete.base import case, require, close, equal, raises, relaid
from lumos.models.tree_utils import ConfigTree, ParameterTree

SHAPES = [(), (), (), (1,), (2,), (3,), (2, 3), (3, 2), (1, 3), (2, 1), (1, 1), (0,), (2, 2, 3), (1, 1, 2)]


def leaf(rng, maxdim=3, plain=None):
    while True:
        s = SHAPES[int(rng.integers(len(SHAPES)))]
        if len(s) <= maxdim:
            break
    if s == () and rng.random() < 0.7:
        return float(rng.normal())
    return relaid(rng, rng.normal(size=s)) if s else np.float64(rng.normal())


def any_names(rng, n):
    pool = ["a", "b", "ab", "a b", "x_1", "data", "children", "10", "9", "A", "é", "a/b", "k-1", "_"]
    return [pool[i] for i in rng.permutation(len(pool))[:n]]


def any_tree(rng, depth=0, maxdim=3):
    """(data, children) nested: a plain description of the tree."""
    n = int(rng.integers(0, 5))
    data = {k: leaf(rng, maxdim) for k in any_names(rng, n)}
    kids = {}
    if depth < 3:
        for k in any_names(rng, int(rng.integers(0, 3 if depth else 4))):
            kids[k] = any_tree(rng, depth + 1, maxdim)
    if depth == 0 and rng.integers(6) == 0:         # one long branch
        tip = ({k: leaf(rng, maxdim) for k in any_names(rng, 2)}, {})
        for k in any_names(rng, int(rng.integers(4, 8))):
            tip = ({j: leaf(rng, maxdim) for j in any_names(rng, int(rng.integers(0, 2)))}, {k: tip})
        kids[any_names(rng, 1)[0]] = tip
    return data, kids


def as_dict(d):
    return {"data": d[0], "children": {k: as_dict(v) for k, v in d[1].items()}}


def build(d, rng):
    if rng.integers(2):
        return ParameterTree.from_dict(as_dict(d))
    if rng.integers(3) == 0:
        return ParameterTree(copy.deepcopy(d[0]), {k: build(v, rng) for k, v in d[1].items()})
    t = ParameterTree(dict(copy.deepcopy(d[0])))
    for k, v in d[1].items():
        t.add_child(k, build(v, rng))
    return t


def leaves(d, path=()):
    """All (path, value) of a description, own data first, then the children in order."""
    out = [(path + (k,), v) for k, v in d[0].items()]
    for k, c in d[1].items():
        out += leaves(c, path + (k,))
    return out


def same_value(a, b, what):
    if isinstance(a, (cas.DM,)):
        a = np.array(a)
        b = np.asarray(b, float)
        b = b.reshape(-1, 1) if b.ndim == 1 else b
        require(a.size == b.size, f"{what}: {a.shape}, expected {b.shape}")
        if b.ndim == 2:
            require(a.shape == b.shape, f"{what}: shape {a.shape}, expected {b.shape}")
        equal(a.ravel(), b.ravel(), what)
        return
    require(np.shape(a) == np.shape(b), f"{what}: shape {np.shape(a)}, expected {np.shape(b)}")
    equal(np.asarray(a, float), np.asarray(b, float), what)


def same(t, d, what, path=()):
    """The tree holds exactly the description."""
    at = ".".join(path) or "the root"
    require(type(t) is ParameterTree, f"{what}: {at} is a {type(t).__name__}")
    require(list(t.data) == list(d[0]), f"{what}: parameters of {at}: {list(t.data)}, expected {list(d[0])}")
    kids = t.to_dict()["children"]
    require(list(kids) == list(d[1]), f"{what}: children of {at}: {list(kids)}, expected {list(d[1])}")
    for k, v in d[0].items():
        same_value(t.data[k], v, f"{what}: {'.'.join(path + (k,))}")
    for k, v in d[1].items():
        same(t.get_child(k), v, what, path + (k,))


def dup(leafs):
    """Descriptions in which two parameters have the same dotted path are out of the domain."""
    p = [".".join(x) for x, _ in leafs]
    return len(set(p)) != len(p)


@case(quick=500)
def flattening(rng):
    d = any_tree(rng)
    t = build(d, rng)
    orig = copy.deepcopy(d)
    L = leaves(d)
    same(t, d, "construction")
    same(ParameterTree.from_dict(t.to_dict()), d, "to_dict and from_dict")
    flat, tree_def = t.to_flat_dict()
    require(set(flat) == {".".join(p) for p, _ in L}, f"flat names {sorted(flat)}")
    for p, v in L:
        same_value(flat[".".join(p)], v, "flat value of " + ".".join(p))
    same(ParameterTree.from_flat_dict(tree_def, flat), d, "flat dictionary round trip")
    own = copy.deepcopy(flat)
    again = ParameterTree.from_flat_dict(tree_def, own)
    for v in own.values():
        if isinstance(v, np.ndarray) and v.ndim:
            v += 1.0
    same(again, d, "a tree of a flat dictionary, after changing its arrays in place")
    vals, aux = t.tree_flatten()
    require(len(vals) == len(L), f"{len(vals)} flat values for {len(L)} parameters")
    same(ParameterTree.tree_unflatten(aux, vals), d, "tree_flatten round trip")
    vec, unravel = t.tree_ravel()
    n = int(sum(np.size(v) for _, v in L))
    require(np.shape(vec) == (n,), f"flat vector of shape {np.shape(vec)} for {n} numbers")
    same(unravel(vec), d, "tree_ravel round trip")
    # every other vector goes to the place its position stands for
    new = rng.normal(size=n)
    u = unravel(new)
    back, _ = u.tree_ravel()
    equal(back, new, "ravel of unravel of another vector")
    # all of this left the tree alone
    same(t, orig, "the flattened tree afterwards")
    # positions are fixed: moving one entry of the vector moves one number of one leaf
    if n:
        k = int(rng.integers(n))
        new2 = new.copy()
        new2[k] += 1.0
        a, b = unravel(new), unravel(new2)
        diffs = sum(int(np.sum(np.asarray(a.get_param("\x00".join(p), "\x00"))
                               != np.asarray(b.get_param("\x00".join(p), "\x00")))) for p, _ in L)
        require(diffs == 1, f"one entry of the vector changes {diffs} numbers")
    return dict(leaves=len(L), n=n)


@case(quick=200)
def vector_order(rng):
    """The vector is the leaves one after another, each in row-major order, for numpy and for casadi."""
    d = any_tree(rng, maxdim=2)
    t = build(d, rng)
    L = leaves(d)
    vec, unravel = t.tree_ravel()
    vals, (_, keys) = t.tree_flatten()
    by = {".".join(p): v for p, v in L}
    require(sorted(keys) == sorted(by), "flat keys")
    exp = np.concatenate([np.ravel(by[k]) for k in keys] + [np.zeros(0)])
    equal(vec, exp, "flat vector")
    if exp.size == 0:
        return dict(n=0)
    c = unravel(cas.DM(exp))
    for p, v in L:
        same_value(c.get_param("\x00".join(p), "\x00"), v, "casadi value of " + ".".join(p))
    s = unravel(cas.MX.sym("p", exp.size))
    for p, v in L:
        got = s.get_param("\x00".join(p), "\x00")
        require(got.numel() == np.size(v), "symbolic size of " + ".".join(p))
    # the casadi tree gives back the vector (all leaves are casadi values)
    back, _ = c.tree_ravel()
    equal(np.array(back).ravel(), exp, "casadi ravel")
    # through jax
    j = jax.tree_util.tree_map(lambda x: x, t)
    same(j, d, "jax tree_map round trip")
    return dict(n=int(exp.size))


@case(quick=500)
def writing(rng):
    d = any_tree(rng)
    L = leaves(d)
    t = build(d, rng)
    cur = {p: v for p, v in L}
    others = [ParameterTree.from_dict(t.to_dict()), copy.deepcopy(t)]
    delim = [".", "/", "::", "->"][int(rng.integers(4))]
    if delim != "." and any(delim in k for p in cur for k in p):
        delim = "."
    join = lambda p: delim.join(p)
    args = () if delim == "." and rng.integers(2) else (delim,)
    ops, given = 0, []
    for _ in range(int(rng.integers(1, 8))):
        if not L:
            break
        p = L[int(rng.integers(len(L)))][0]
        v = leaf(rng)
        if np.ndim(cur[p]) and rng.integers(2):
            v = rng.normal(size=np.shape(cur[p]))       # of the shape it has
        if given and rng.integers(3) == 0:
            v = given[int(rng.integers(len(given)))][0]       # an array another parameter may hold already
        held = t.get_param(join(p), *args)
        given += [(held, copy.deepcopy(held)), (v, copy.deepcopy(v))]
        t.set_param(join(p), v, *args)
        cur[p] = v
        same_value(t.get_param(join(p), *args), v, f"reading {join(p)} back")
        ops += 1
        for a, b in given:
            equal(np.asarray(a), np.asarray(b), f"a value read or written earlier, after writing {join(p)}")
        exp = rebuild(d, cur)
        same(t, exp, f"after writing {join(p)} with delimiter {delim!r}")
    for o in others:
        same(o, d, "a copy made before the writes")
    # and the flattened form follows
    vec, unravel = t.tree_ravel()
    same(unravel(vec), rebuild(d, cur), "round trip after the writes")
    # paths that do not exist
    bad = [("nope",), ("nope", "a")] + [p + ("deeper",) for p, _ in L[:2]] + [p[:-1] + (p[-1] + "x",) for p, _ in L[:2]]
    have = set(cur)
    # a node and a parameter of another node
    every = [()] + nodes(d)
    for _ in range(6):
        if L:
            p = every[int(rng.integers(len(every)))] + L[int(rng.integers(len(L)))][0][-1:]
            bad.append(p)
            bad.append(p[:-1] + L[int(rng.integers(len(L)))][0])
    for p in bad:
        if p in have:
            continue
        raises(Exception, lambda: t.get_param(join(p), *args), f"reading {join(p)} is accepted")
        raises(Exception, lambda: t.set_param(join(p), 1.0, *args), f"writing {join(p)} is accepted")
    same(t, rebuild(d, cur), "after rejected writes")
    return dict(ops=ops, delim=delim)


def rebuild(d, cur, path=()):
    return ({k: cur[path + (k,)] for k in d[0]}, {k: rebuild(c, cur, path + (k,)) for k, c in d[1].items()})


def replace(d, path, new):
    if len(path) == 1:
        return d[0], {**d[1], path[0]: new}
    return d[0], {**d[1], path[0]: replace(d[1][path[0]], path[1:], new)}


def nodes(d, path=()):
    out = []
    for k, c in d[1].items():
        out += [path + (k,)] + nodes(c, path + (k,))
    return out


@case(quick=300)
def subtrees(rng):
    """Replacing a subtree changes that subtree and nothing else."""
    d = any_tree(rng)
    t = build(d, rng)
    nd = nodes(d)
    delim = [".", "/", "::"][int(rng.integers(3))]
    if any(delim in k for p in nd for k in p):
        delim = "."
    args = () if delim == "." and rng.integers(2) else (delim,)
    for _ in range(3):
        if nd:
            p = nd[int(rng.integers(len(nd)))]
            new = any_tree(rng, depth=2)
            t.replace_subtree(delim.join(p), build(new, rng), *args)
            d = replace(d, p, new)
            same(t, d, f"after replacing {delim.join(p)}")
            nd = nodes(d)
            nd = [q for q in nd if not any(delim in k for k in q)]
    raises(Exception, lambda: t.replace_subtree("nope", build(({}, {}), rng), *args), "an unknown subtree was replaced")
    raises(Exception, lambda: t.replace_subtree("nope" + (args or (".",))[0] + "x", build(({}, {}), rng), *args),
           "an unknown subtree was replaced")
    for p in [(), *nd]:                 # names that exist, but not there
        for k in {q[-1] for q in nd}:
            if (*p, k) not in nd and len(p) < 3:
                raises(Exception, lambda: t.replace_subtree(delim.join((*p, k)), build(({}, {}), rng), *args),
                       "a subtree that exists elsewhere only was replaced")
    if nd:
        raises(TypeError, lambda: t.replace_subtree(delim.join(nd[0]), {"data": {}, "children": {}}, *args),
               "a plain dictionary was accepted as a subtree")
    same(t, d, "after rejected replacements")
    return dict(nodes=len(nd), delim=delim)


def config(rng, depth=0):
    return (f"Type{int(rng.integers(100))}", {k: config(rng, depth + 1) for k in any_names(rng, int(rng.integers(0, 3)))
                                              } if depth < 3 else {})


@case(quick=150)
def configurations(rng):
    d = config(rng)
    t = ConfigTree.from_dict(as_dict(d))

    def same_config(t, d, what):
        require(t.data == d[0], f"{what}: {t.data}, expected {d[0]}")
        kids = t.to_dict()["children"]
        require(list(kids) == list(d[1]), f"{what}: children {list(kids)}, expected {list(d[1])}")
        for k, v in d[1].items():
            same_config(t.get_child(k), v, what)
    same_config(t, d, "construction")
    flat, tree_def = t.to_flat_dict()
    paths = [()] + nodes(d)
    require(set(flat) == {".".join(p) for p in paths}, f"flat names {sorted(flat)}")
    same_config(ConfigTree.from_flat_dict(tree_def, flat), d, "flat dictionary round trip")
    new = lambda p: "New" + ".".join(p)
    renamed = lambda d, p=(): (new(p), {k: renamed(v, p + (k,)) for k, v in d[1].items()})
    same_config(ConfigTree.from_flat_dict(tree_def, {".".join(p): new(p) for p in paths}), renamed(d),
                "other classes under the flat names")
    same_config(ConfigTree(d[0], {k: ConfigTree.from_dict(as_dict(v)) for k, v in d[1].items()}), d,
                "construction with children")
    raw = t.to_dict()
    raw["data"] = "changed"
    same_config(t, d, "after changing the dictionary")
    return dict(nodes=len(paths))


@case(quick=40)
def models(rng):
    """Parameters of a real model: handing them out and taking them back is lossless and precise."""
    from lumos.models.composition import ModelMaker
    import lumos.models.simple_vehicle_on_track  # noqa: registers the models
    import lumos.models.vehicles.simple_vehicle, lumos.models.tires.pacejka, lumos.models.aero.aero  # noqa
    name = ["SimpleVehicleOnTrack", "SimpleVehicle"][int(rng.integers(2))]
    m = ModelMaker.make_model_from_name(name)
    p = m.get_recursive_params()
    flat, _ = p.to_flat_dict()
    keys = [k for k in flat if np.isscalar(flat[k])]
    k = keys[int(rng.integers(len(keys)))]
    v = float(rng.normal())
    p.set_param(k, v)
    after, _ = p.to_flat_dict()
    for q in flat:
        same_value(after[q], v if q == k else flat[q], f"{q} after writing {k}")
    m.set_recursive_params(p)
    back, _ = m.get_recursive_params().to_flat_dict()
    require(list(back) == list(flat), "parameters of the model")
    for q in flat:
        same_value(back[q], v if q == k else flat[q], f"{q} of the model after writing {k}")
    return dict(name=name)


def arrays(d, path=()):
    """The (nested) data dictionaries of the plain form."""
    out = [d["data"]]
    for c in d["children"].values():
        out += arrays(c)
    return out


@case(quick=150)
def independence(rng):
    """Values handed over as plain dictionaries are the tree's own: changing them in place reaches neither side."""
    d = any_tree(rng)
    raw = copy.deepcopy(as_dict(d))
    t = ParameterTree.from_dict(raw)
    for a in arrays(raw):
        for k, v in a.items():
            if isinstance(v, np.ndarray) and v.ndim:
                v += 100.0
        a["new"] = 1.0
    raw["children"]["new"] = {"data": {}, "children": {}}
    same(t, d, "after changing the dictionary it was built from, in place")
    out = t.to_dict()
    for a in arrays(out):
        for k in list(a):
            a[k] = a[k] + 1.0
    out["children"]["new"] = {"data": {}, "children": {}}
    same(t, d, "after changing the dictionary it was written to")
    # two trees of the same dictionary
    raw = copy.deepcopy(as_dict(d))
    a, b = ParameterTree.from_dict(raw), ParameterTree.from_dict(raw)
    for p, _ in leaves(d):
        a.set_param("\x00".join(p), 3.0, "\x00")
    same(b, d, "the other tree of the same dictionary")
    # in-place changes of one tree's arrays do not reach the other's
    a = ParameterTree.from_dict(raw)
    for p, _ in leaves(d):
        v = a.get_param("\x00".join(p), "\x00")
        if isinstance(v, np.ndarray) and v.ndim:
            v += 1.0
    same(b, d, "the other tree of the same dictionary, after changes in place")

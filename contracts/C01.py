"""C01: layout of the decision vector."""
from contracts.common import *


def setup(groups=None):
    return layout(groups, ALL_GROUPS)


@goal("layout: sizes")
def sizes():
    op, groups, glob, n, N, M, S, V, off = setup()
    CTX.require_eq("number of stages", op.num_stages, S)
    CTX.require_eq("variables per stage", op.num_var_stage, V)
    CTX.require_eq("variables per interval", op.num_var_interval, M * V)
    CTX.require_eq("stage variables", op.num_all_stage_var, S * V)
    CTX.require_eq("global variables", op.num_global_var, len(glob))
    CTX.require_eq("decision variables", op.num_dec, S * V + len(glob))
    CTX.require("has_global_var", op.has_global_var() == (len(glob) > 0))
    for g in groups:
        CTX.require_eq("group size", op.get_stage_var_size(g), n[g])


@goal("layout: unflatten puts entry s*V+off(g)+j at [s, j] of group g")
def unflatten():
    op, groups, glob, n, N, M, S, V, off = setup()
    x = vec("x", op.num_dec)
    u = op.unflatten_var(x)
    CTX.require("field names", tuple(u._fields) == groups + glob)
    for k, g in enumerate(glob):
        CTX.require_eq("global entry", lift(getattr(u, g)), read("x", [S * V + k]))
    g = groups[CTX.choose(len(groups))]
    a = getattr(u, g)
    shape_is(f"shape of {g}", a, S, n[g])
    s, j = idx("s", S), idx("j", n[g])
    CTX.require_eq(f"entry of {g}", elem(a, s, j), read("x", [s * V + off[g] + j]))


@goal("layout: flatten puts group g [s, j] at s*V+off(g)+j; the two are mutually inverse")
def flatten():
    op, groups, glob, n, N, M, S, V, off = setup()
    d = {g: arr("A_" + g, S, n[g]) for g in groups}
    d.update({g: sym("G_" + g) for g in glob})
    if CTX.choose(2):
        d = dict(reversed(list(d.items())))         # keywords come in any order
    y = op.flatten_var(**d)
    shape_is("shape", y, S * V + len(glob))
    k = CTX.choose(len(groups) + len(glob))
    if k >= len(groups):
        q = k - len(groups)
        CTX.require_eq("global entry", elem(y, S * V + q), d[glob[q]])
        return
    g = groups[k]
    s, j = idx("s", S), idx("j", n[g])
    CTX.require_eq("entry", elem(y, s * V + off[g] + j), read("A_" + g, [s, j]))
    u = op.unflatten_var(y)
    CTX.require_eq("unflatten(flatten(.)) = id", elem(getattr(u, g), s, j), read("A_" + g, [s, j]))
    x = vec("x", op.num_dec)
    z = op.flatten_var(**op.unflatten_var(x)._asdict())
    shape_is("flatten(unflatten(.)) shape", z, S * V + len(glob))
    c = any_coord(z.spaces[0])
    CTX.require_eq("flatten(unflatten(.)) = id", z.el(c), read("x", [z.spaces[0].lin(c)]))


@goal("layout: split and merge of stage and global variables")
def split_merge():
    op, groups, glob, n, N, M, S, V, off = setup()
    x = vec("x", op.num_dec)
    a, b = op.split_stage_and_global_vars(x)
    shape_is("stage part", a, S * V)
    shape_is("global part", b, len(glob))
    i = idx("i", S * V)
    CTX.require_eq("stage entry", elem(a, i), read("x", [i]))
    for k in range(len(glob)):
        CTX.require_eq("global entry", elem(b, k), read("x", [S * V + k]))
    m = op.merge_stage_and_global_vars(vec("a", S * V), vec("b", len(glob)))
    shape_is("merged", m, S * V + len(glob))
    CTX.require_eq("merged stage entry", elem(m, i), read("a", [i]))
    for k in range(len(glob)):
        CTX.require_eq("merged global entry", elem(m, S * V + k), read("b", [k]))


@goal("layout: index of a stage variable at any admissible stage")
def index_at_stage():
    op, groups, glob, n, N, M, S, V, off = setup()
    g = groups[CTX.choose(len(groups))]
    j = idx("j", n[g])
    nm = name_of(g, j)
    CTX.require_eq("index in group", op.get_var_index_in_group(g, nm), j)
    s = CTX.index("s", S)
    if CTX.choose(2):
        r = op.get_var_index_in_dec(g, nm, s - S)
    else:
        r = op.get_var_index_in_dec(g, nm, s)
    CTX.require_eq("index at stage", r, s * V + off[g] + j)
    x = vec("x", op.num_dec)
    CTX.require_eq("value at stage", op.get_var(x, g, nm, s), read("x", [s * V + off[g] + j]))


@goal("layout: a stage outside [-S, S) is refused")
def index_out_of_range():
    op, groups, glob, n, N, M, S, V, off = setup(("states", "inputs"))
    j = idx("j", n["states"])
    k = sym("k", "int")
    CTX.bound(k, 0, None)
    s = S + k if CTX.choose(2) else -S - 1 - k
    if CTX.choose(2):
        expect_raises("variable index refused", ValueError, op.get_var_index_in_dec, "states",
                      name_of("states", j), s)
    else:
        expect_raises("group indices refused", ValueError, op.get_group_indices_at_stage, "states", s)


@goal("layout: indices of a stage variable at all stages")
def index_all_stages():
    op, groups, glob, n, N, M, S, V, off = setup()
    g = groups[CTX.choose(len(groups))]
    j = idx("j", n[g])
    r = op.get_var_index_in_dec(g, name_of(g, j))
    shape_is("shape", r, S)
    s = CTX.index("s", S)
    CTX.require_eq("entry", elem(r, s), s * V + off[g] + j)
    x = vec("x", op.num_dec)
    v = op.get_var(x, g, name_of(g, j))
    shape_is("values shape", v, S)
    CTX.require_eq("values entry", elem(v, s), read("x", [s * V + off[g] + j]))


@goal("layout: index of a global variable")
def index_global():
    op, groups, glob, n, N, M, S, V, off = setup()
    if not glob:
        CTX.require("no globals", not op.has_global_var())
        return
    x = vec("x", op.num_dec)
    for k, g in enumerate(glob):
        CTX.require_eq("index in dec", op.get_var_index_in_dec("global", g), S * V + k)
        CTX.require_eq("stage is ignored", op.get_var_index_in_dec("global", g, stage=0), S * V + k)
        CTX.require_eq("index in group", op.get_var_index_in_group("global", g), k)
        CTX.require_eq("value", op.get_var(x, "global", g), read("x", [S * V + k]))


@goal("layout: indices of a whole group")
def group_indices():
    op, groups, glob, n, N, M, S, V, off = setup()
    g = groups[CTX.choose(len(groups))]
    s, j = CTX.index("s", S), idx("j", n[g])
    r = op.get_group_indices_at_stage(g, s if CTX.choose(2) else s - S)
    shape_is("at one stage", r, n[g])
    CTX.require_eq("entry at one stage", elem(r, j), s * V + off[g] + j)
    q = op.get_group_indcies_in_dec(g)
    shape_is("all stages", q, S * n[g])
    CTX.require_eq("entry over all stages", elem(q, s * n[g] + j), s * V + off[g] + j)


@goal("layout: stage array and interval tensor")
def tensors():
    op, groups, glob, n, N, M, S, V, off = setup()
    x = vec("x", op.num_dec)
    a = op.get_stage_var_array(x)
    shape_is("stage array", a, S, V)
    s, v = CTX.index("s", S), idx("v", V)
    CTX.require_eq("stage array entry", elem(a, s, v), read("x", [s * V + v]))
    g = groups[CTX.choose(len(groups))]
    t = op.get_interval_tensor(x, g)
    shape_is("interval tensor", t, N, M, n[g])
    i, k, j = CTX.index("i", N), CTX.index("k", M), idx("j", n[g])
    CTX.require_eq("interval tensor entry", elem(t, i, k, j), read("x", [(i * (M - 1) + k) * V + off[g] + j]))


@goal("layout: the index map is injective")
def injective():
    """Lemma over the layout formula: two different (stage, group, position) never share an index."""
    io, n = model_names()
    S = CTX.size("S", 1)
    V = n["states"] + n["inputs"]
    s1, s2 = CTX.index("s", S), CTX.index("r", S)
    v1, v2 = idx("v", V), idx("w", V)
    with CTX.assuming(eq(s1 * V + v1, s2 * V + v2)):
        pass
    from lumver.terms import split_eq
    sp = split_eq((s1 - s2) * V + v1 - v2)
    CTX.require("s1*V+v1 = s2*V+v2 forces s1 = s2 and v1 = v2", sp is not None and len(sp) == 2)


@canary("layout: wrong offset must be refuted")
def wrong():
    op, groups, glob, n, N, M, S, V, off = setup(("states", "inputs"))
    x = vec("x", op.num_dec)
    u = op.unflatten_var(x)
    s, j = idx("s", S), idx("j", n["inputs"])
    CTX.require_eq("wrong", elem(u.inputs, s, j), read("x", [s * V + j]))

"""Runtime contract of the decision-vector layout on the real DecVarOperator."""
import numpy as np

from concrete.base import case, require, close, equal, relaid, raises
from concrete.gen import make

@case(quick=400)
def layout(rng):
    op, io, n, groups, glob, N, M, S, V, off = make(rng)
    require(op.num_stages == S, f"num_stages {op.num_stages}, expected {S}")
    require(op.num_var_stage == V, "num_var_stage")
    require(op.num_var_interval == V * M, "num_var_interval")
    require(op.num_all_stage_var == S * V, "num_all_stage_var")
    require(op.num_dec == S * V + len(glob), "num_dec")
    require(op.has_global_var() == bool(glob), "has_global_var")
    x = rng.permutation(op.num_dec).astype(float)
    x0, x = x, relaid(rng, x)
    u = op.unflatten_var(x)
    require(tuple(u._fields) == groups + glob, "field names")
    exp = x[:S * V].reshape(S, V)
    for g in groups:
        equal(getattr(u, g), exp[:, off[g]:off[g] + n[g]], f"unflatten group {g}")
    for k, g in enumerate(glob):
        equal(getattr(u, g), x[S * V + k], f"unflatten global {g}")
    equal(op.flatten_var(**u._asdict()), x, "flatten(unflatten(x))")
    d = {g: rng.normal(size=(S, n[g])) for g in groups}
    d.update({g: float(rng.normal()) for g in glob})
    d = {k: d[k] for k in rng.permutation(list(d))}         # keywords come in any order
    y = op.flatten_var(**{k: relaid(rng, v) if np.ndim(v) else v for k, v in d.items()})
    equal(y, np.append(np.concatenate([d[g] for g in groups], 1).ravel(), [d[g] for g in glob]), "flatten")
    w = op.unflatten_var(y)
    for g in groups + glob:
        equal(getattr(w, g), d[g], f"unflatten(flatten) {g}")
    a, b = op.split_stage_and_global_vars(x)
    equal(a, x[:S * V], "stage part")
    equal(b, x[S * V:], "global part")
    equal(op.merge_stage_and_global_vars(a, b), x, "merge(split)")
    equal(op.get_stage_var_array(x), exp, "stage array")
    equal(x, x0, "the vector given was modified")
    return dict(groups=groups, globals=glob, sizes=n, N=N, M=M)


@case(quick=400)
def indices(rng):
    op, io, n, groups, glob, N, M, S, V, off = make(rng)
    x = rng.permutation(op.num_dec).astype(float)
    used = []
    for g in groups:
        for j, nm in enumerate(getattr(io, g)):
            require(op.get_var_index_in_group(g, nm) == j, f"index of {nm} in group")
            al = op.get_var_index_in_dec(g, nm)
            equal(al, np.arange(S) * V + off[g] + j, f"indices of {g}.{nm}")
            used += list(al)
            for s in range(-S, S):
                i = op.get_var_index_in_dec(g, nm, np.int64(s) if s % 2 else s)
                require(i == (s % S) * V + off[g] + j, f"index of {g}.{nm} at stage {s}: {i}")
                require(op.get_var(x, g, nm, s) == x[(s % S) * V + off[g] + j], f"value of {g}.{nm} at {s}")
            for s in (S, -S - 1, S + 3, -S - 7):
                raises(ValueError, lambda: op.get_var_index_in_dec(g, nm, s), f"stage {s} of {S} accepted")
            equal(op.get_var(x, g, nm), x[al.astype(int)], "values over stages")
        for s in range(-S, S):
            if n[g]:
                equal(op.get_group_indices_at_stage(g, s), (s % S) * V + off[g] + np.arange(n[g]),
                      f"indices of {g} at {s}")
        for s in (S, -S - 1):
            raises(ValueError, lambda: op.get_group_indices_at_stage(g, s), f"stage {s} of {S} accepted")
        if n[g]:
            equal(op.get_group_indcies_in_dec(g),
                  (np.arange(S)[:, None] * V + off[g] + np.arange(n[g])).ravel(), f"all indices of {g}")
        t = op.get_interval_tensor(relaid(rng, x), g)
        e = x[:S * V].reshape(S, V)[:, off[g]:off[g] + n[g]]
        equal(t, np.stack([e[i * (M - 1):i * (M - 1) + M] for i in range(N)]), f"interval tensor of {g}")
    for k, g in enumerate(glob):
        i = op.get_var_index_in_dec("global", g)
        require(i == S * V + k, f"index of global {g}")
        require(op.get_var_index_in_group("global", g) == k, "global index in group")
        require(op.get_var(x, "global", g) == x[S * V + k], "global value")
        used.append(i)
    require(sorted(used) == list(range(op.num_dec)), "every entry is named exactly once")
    return dict(groups=groups, globals=glob, sizes=n, N=N, M=M)

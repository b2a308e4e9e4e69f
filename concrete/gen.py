"""Input generators shared by the runtime contracts."""
from collections import namedtuple

import numpy as np

from lumos.optimal_control.utils import DecVarOperator

IO = namedtuple("IO", ("states", "states_dot", "inputs", "outputs", "con_outputs", "residuals"))


def names(rng, g, n):
    """Names of one group: numbered, of different lengths, containing one another, in any order."""
    k = int(rng.integers(5))
    pool = [f"{g}_{i}" if k == 0 else f"v{i}" if k == 1 else "x" * (i + 1) if k == 2 else
            f"{'ab'[i % 2] * (1 + i // 2)}_x" if k == 3 else f"{'pq'[i % 2]}{i // 4}.{'xy'[i // 2 % 2]}" for i in range(n)]
    return tuple(pool if rng.integers(2) else [pool[i] for i in rng.permutation(n)])


def make(rng):
    sizes = dict(states=int(rng.integers(1, 5)), inputs=int(rng.integers(0, 4)), outputs=int(rng.integers(0, 3)),
                 con_outputs=int(rng.integers(0, 4)), residuals=int(rng.integers(0, 2)))
    sizes["states_dot"] = sizes["states"]
    if rng.integers(12) == 0:           # many variables of one kind
        g = list(sizes)[int(rng.integers(4))]
        sizes[g] = int(rng.integers(9, 14))
        sizes["states_dot"] = sizes["states"]
    io = IO(**{g: names(rng, g, sizes[g]) for g in IO._fields})
    allg = ["states", "inputs", "states_dot", "con_outputs"]
    groups = [allg, ["states", "inputs"], list(rng.permutation(allg)),
              list(rng.permutation(allg)[:int(rng.integers(1, 5))])][int(rng.integers(4))]
    groups = tuple(str(g) for g in groups)
    if sum(sizes[g] for g in groups) == 0:
        groups = ("states",) + tuple(g for g in groups if g != "states")
    glob = [(), ("mesh_scale",), ("g0", "g1"), ("a", "b", "c"), ("g1", "g0", "g10", "a", "g11", "g2")][int(rng.integers(5))]
    N, M = int(rng.integers(1, 7)), int(rng.integers(2, 6))
    if rng.integers(12) == 0:
        N = int(rng.integers(10, 15))
    if rng.integers(12) == 0:           # hardly any stage variables
        groups, N, M = ("states",), 1, 2
    op = DecVarOperator(io, N, M, groups, glob)
    off, V = {}, 0
    for g in groups:
        off[g] = V
        V += sizes[g]
    S = N * (M - 1) + 1
    return op, io, sizes, groups, glob, N, M, S, V, off

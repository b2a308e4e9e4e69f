import sys; sys.path.insert(0, "/verif/tools")
from plant import make
src = open("/verif/tools/bugs/b2.py").read()
exec(src[:src.index("make(")])          # file names and the toy model
CFG = "lumos/optimal_control/config.py"

make("b36_mesh_cache", "C07", [(S, '''        self._normalized_interval_mesh = []
        for interval in range(self.num_intervals):''', '''        # The interval mesh of equally sized problems is the same: build it only once.
        cache = ScaledMeshOCP.__dict__.get("_interval_mesh_cache")
        if cache is None:
            cache = ScaledMeshOCP._interval_mesh_cache = {}
        key = (type(self.transcription), len(interval_points), *np.round(interval_points, 3))
        if key in cache:
            self._normalized_interval_mesh = cache[key]
            return

        self._normalized_interval_mesh = cache[key] = []
        for interval in range(self.num_intervals):''')], TOY + '''
a = ScaledMeshOCP(Toy(), SimConfig(num_intervals=3, transcription=("LGR", {"num_stages": 3})))
b = ScaledMeshOCP(Toy(), SimConfig(num_intervals=3, transcription=("LGR", {"num_stages": 4})))
assert len(b.get_mesh_from_scale(2.0)) == b.num_stages, (len(b.get_mesh_from_scale(2.0)), b.num_stages)
''', "two problems in one process with the same interval points and scheme but different stages per interval",
"the second problem has the mesh of the first")

make("b37_interval_tensor_order", "C01", [(U, '''        vec = np.concatenate(stage_vars, axis=-1).flatten()
''', '''        vec = np.concatenate(stage_vars, axis=-1).ravel(order="K")
''')], TOY + '''
from collections import namedtuple
from lumos.optimal_control.utils import DecVarOperator
N = namedtuple("N", ["states", "inputs"])
op = DecVarOperator(N(("a", "b"), ("u",)), 2, 2, ("states", "inputs"), ())
s = np.arange(6.0).reshape(3, 2); u = np.arange(3.0).reshape(3, 1) + 10
x = op.flatten_var(states=np.asfortranarray(s), inputs=np.asfortranarray(u))
assert list(x) == list(op.flatten_var(states=s, inputs=u)), x
''', "values given as column-major arrays", "the decision vector is packed variable-major")


make("b39_sum_in_place", "C04", [(N, '''        return np.sum(
            np.vstack([p.gradient(x) for p in self._objectives.values()]), axis=0
        )
''', '''        gradients = [p._gradient(x * self._dec_var_scales) for p in self._objectives.values()]
        total = gradients[0]
        for g in gradients[1:]:
            total += g
        return total * self._dec_var_scales
''')], '''import os, tempfile
os.chdir(tempfile.mkdtemp())
import numpy as np
from lumos.optimal_control.nlp import *
g = np.array([1.0, 2.0])
class P(CompositeProblem):
    pass
p = P(2)
p.add_objective("lin", BaseObjective(2, lambda x: g @ x, lambda x: g, lambda x: np.array([]), (np.array([], int), np.array([], int))))
p.add_objective("sq", BaseObjective(2, lambda x: x @ x, lambda x: 2 * x, lambda x: 2 * np.eye(2)))
x = np.array([1.0, -1.0])
a, b = p.gradient(x).copy(), p.gradient(x).copy()
assert np.allclose(a, b), (a, b)
''', "several objectives, the first with a constant gradient array, two evaluations", "the gradient grows with every evaluation")

make("b40_scales_in_place", "C03", [(N, '''        return (
            self._constraints(x * self._input_scales, *args, **kwargs)
            / self._con_scales
        )
''', '''        values = np.asarray(self._constraints(x * self._input_scales, *args, **kwargs))
        if values.dtype == float and values.shape == self._con_scales.shape:
            # no need for another array
            values /= self._con_scales
            return values
        return values / self._con_scales
''')], '''import numpy as np
from lumos.optimal_control.nlp import *
k = np.array([4.0, 8.0])
c = BaseConstraints(2, 2, lambda x: k, lambda x: np.zeros(4), lambda x, l: np.zeros(4))
c.set_con_scales(np.array([2.0, 2.0]))
a = np.array(c.constraints(np.ones(2))); b = np.array(c.constraints(np.ones(2)))
assert np.allclose(a, b), (a, b)
''', "a constraint function that returns an array it keeps, constraint scales other than 1, two evaluations", "the values change with every evaluation")


make("b42_multipliers_kept", "C23", [(N, '''        scaled_sol, info = nlp.solve(scaled_init_guess, lagrange=lagrange, zl=zl, zu=zu)
''', '''        if "warm_start_init_point" in user_options and len(lagrange) == 0:
            # continue from the multipliers of the last solve
            lagrange = getattr(self, "_last_multipliers", lagrange)
        scaled_sol, info = nlp.solve(scaled_init_guess, lagrange=lagrange, zl=zl, zu=zu)
        self._last_multipliers = info.get("mult_g", [])
''')], '''import os, tempfile
os.chdir(tempfile.mkdtemp())
import numpy as np
import lumos.optimal_control.nlp as nlp
seen = []
class Fake:
    def __init__(self, **kw): pass
    def add_option(self, k, v): pass
    def solve(self, x, **kw): seen.append(kw); return x, {"status": 0, "mult_g": np.array([3.0])}
nlp.cyipopt.Problem = Fake
class P(nlp.CompositeProblem):
    _num_iter = 0
    def get_init_guess(self): return np.zeros(2)
p = P(2)
p.add_constraints("c", nlp.BaseConstraints(2, 1, lambda x: x[:1], lambda x: np.array([1.0, 0.0]), lambda x, l: np.zeros(4)))
p.cl = p.cu = np.zeros(1)
for _ in range(2):
    p.solve(print_timing_statistics="no", warm_start_init_point="yes")
assert len(seen[1]["lagrange"]) == 0, seen
''', "two solves of one problem with the option warm_start_init_point and no starting multipliers", "the second solve starts from multipliers nobody passed")

make("b43_ravel_by_size", "C12", [(TU, '''    sizes, shapes = _unzip2(_size_and_shape(x) for x in values)
''', '''    sizes, shapes = _unzip2(_size_and_shape(x) for x in values)
    # a single number is a scalar
    shapes = tuple(s if n > 1 or len(s) > 1 else () for n, s in zip(sizes, shapes))
''')], '''import numpy as np
from lumos.models.tree_utils import ParameterTree
t = ParameterTree({"a": np.array([1.0]), "b": 2.0})
v, back = t.tree_ravel()
assert np.shape(back(v).get_param("a")) == (1,), back(v)
''', "a parameter that is an array of one element", "it comes back as a scalar")

make("b44_empty_group", "C13", [(MB, '''        offsets = np.cumsum([self.get_num_vars(g) for g in self._implicit_inputs])[:-1]
        offsets = dict(zip(self._implicit_inputs, np.insert(offsets, 0, 0)))

        return self.get_var_index(group=group, name=name) + offsets[group]
''', '''        sizes = {g: self.get_num_vars(g) for g in self._implicit_inputs}
        # empty groups take no place
        used = [g for g in self._implicit_inputs if sizes[g]]
        if len(used) == len(self._implicit_inputs):
            offset = sum(sizes[g] for g in used[: used.index(group)])
        else:
            offset = used.index(group) * sizes[used[0]]

        return self.get_var_index(group=group, name=name) + offset
''')], TOY + '''
@state_space_io(states=("p", "v"), inputs=("u",), outputs=("e",))
class Two(Toy): pass
m = Two()
assert m.get_var_index_in_flat("states_dot", "p") == 3, m.get_var_index_in_flat("states_dot", "p")
''', "a model without constrained outputs and with different numbers of states and inputs", "positions of the state derivatives in the flat vector are wrong")

make("b45_window_strides", "C05", [(U, '''        a, b = lnp.split(x, [length - overlap])
''', '''        if backend == "numpy" and batch > 1 and x.ndim > 1:
            # view of the windows, without copies
            step = x.itemsize * int(np.prod(unit_shape))
            return np.array(
                np.lib.stride_tricks.as_strided(
                    x,
                    (batch, width, *unit_shape),
                    (stride * step, step, *x.strides[1:]),
                )
            )
        a, b = lnp.split(x, [length - overlap])
''')], '''import numpy as np
from lumos.optimal_control.utils import batch_conv1d
big = np.arange(30.0).reshape(5, 6)
x = big[:, :2]
w = batch_conv1d(x, 3, 2)
assert np.array_equal(w, np.stack([x[0:3], x[2:5]])), w
''', "a sequence that is a column slice of a wider array", "the windows hold values of other columns")


make("b47_mesh_of_first_scale", "C02", [(F, '''        # Currently we don't need to update anything else, but in the future we might.
        self._mesh_scale = mesh_scale
''', '''        # Currently we don't need to update anything else, but in the future we might.
        self._mesh_scale = mesh_scale
        self._interval_lengths = None

    @property
    def _normalized_interval_length(self):
        # constant, as the mesh is fixed
        if self._interval_lengths is None:
            self._interval_lengths = super()._normalized_interval_length
        return self._interval_lengths
''')], TOY + '''
ocp = FixedMeshOCP(Toy(), SimConfig(num_intervals=3), mesh_scale=2.0)
np.random.seed(0)
x = np.random.rand(ocp.num_dec)
ocp.constraints(x)
ocp.set_normalized_mesh(np.array([0, .2, .3, 1.0]))
new = FixedMeshOCP(Toy(), SimConfig(num_intervals=3, interval_points=np.array([0, .2, .3, 1.0])), mesh_scale=2.0)
assert np.allclose(ocp.constraints(x), new.constraints(x))
''', "a fixed mesh problem whose interval points are set again after an evaluation", "continuity uses the old interval lengths")


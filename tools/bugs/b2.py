import sys; sys.path.insert(0, "/verif/tools")
from plant import make
U = "lumos/optimal_control/utils.py"
N = "lumos/optimal_control/nlp.py"
S = "lumos/optimal_control/scaled_mesh_ocp.py"
F = "lumos/optimal_control/fixed_mesh_ocp.py"
CV = "lumos/optimal_control/convolution.py"
CO = "lumos/optimal_control/collocation.py"
MS = "lumos/optimal_control/model_solver.py"
TR = "lumos/models/tracks.py"
TU = "lumos/models/tree_utils.py"
MB = "lumos/models/base.py"
SV = "lumos/models/vehicles/simple_vehicle.py"
NU = "lumos/numpy/utils.py"
LT = "lumos/simulations/laptime_simulation.py"
AE = "lumos/models/aero/aero.py"
PT = "lumos/models/tires/perantoni.py"
HEAD = "import numpy as np\nfrom collections import namedtuple\n"
TOY = '''import os, tempfile
os.chdir(tempfile.mkdtemp())
import numpy as np
import lumos.numpy as lnp
from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP
from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
from lumos.optimal_control.config import *

@state_space_io(states=("time", "p", "v"), inputs=("u",), outputs=("e", "w"))
class Toy(StateSpaceModel):
    def __init__(self, params={}, model_config={}):
        super().__init__(params=params, model_config=model_config)
    def forward(self, states, inputs, mesh=0.0):
        k = self._params["k"]
        return StateSpaceModelReturn(
            states_dot=self.make_dict("states_dot", time=1.0 + 0 * states["p"], p=states["v"] * k, v=inputs["u"] ** 2 - states["p"] * states["v"]),
            outputs=self.make_dict("outputs", e=states["v"] ** 2, w=states["p"] * inputs["u"]))
    @classmethod
    def get_default_params(cls):
        return {"k": 1.0}

def fd_jac(f, x, h=1e-6):
    return np.stack([(f(x + h * e) - f(x - h * e)) / (2 * h) for e in np.eye(len(x))], axis=-1)

def dense(p, x):
    r, c = p.jacobianstructure()
    J = np.zeros((p.num_con, p.num_dec))
    np.add.at(J, (r, c), p.jacobian(x))
    return J
'''

make("b06_nonuniform_hessian", "C02", [(S, "        lagrange = lagrange * self._normalized_interval_length.reshape([-1, 1, 1])\n",
 "        lagrange = lagrange / self.num_intervals\n")],
 TOY + '''
np.random.seed(0)
ocp = ScaledMeshOCP(Toy(), SimConfig(num_intervals=3, interval_points=np.array([0, .2, .3, 1.]), transcription="Trapezoidal"))
c = ocp._constraints["continuity"]
x = np.random.rand(ocp.num_dec); l = np.random.rand(c.num_con)
h = 1e-4
H = c.get_csc_hessian(x, l).toarray(); H = H + H.T
L = lambda x: l @ c.constraints(x)
ref = fd_jac(lambda x: fd_jac(L, x, 1e-4), x, 1e-4)
assert np.allclose(H, ref, atol=1e-5), abs(H - ref).max()
''', "intervals of different length and the exact Hessian", "the continuity Hessian uses the mean interval length")

make("b07_inplace_scaling", "C03", [(N, '''        return (
            self._jacobian(x * self._input_scales, *args, **kwargs) / self._jac_scales
        )
''', '''        vals = np.asarray(
            self._jacobian(x * self._input_scales, *args, **kwargs), dtype=float
        )
        vals /= self._jac_scales
        return vals
''')],
 HEAD + '''from lumos.optimal_control.nlp import LinearConstraints
A = np.array([[1., 2.], [3., 4.]])
rows, cols = np.nonzero(A)
c = LinearConstraints(2, 2, lambda x: A @ x, lambda x: A[rows, cols], (rows, cols), cache_jacobian=True)
c.set_input_scales(np.array([2., 3.]))
for _ in range(2):
    J = c.get_csc_jacobian(np.ones(2)).toarray()
    assert np.allclose(J, A * [2., 3.]), J
''', "a linear constraint with a cached floating point Jacobian, scales other than one, evaluated twice", "each evaluation scales the cached Jacobian again")

make("b08_register_before_check", "C04", [(N, '''        if not (c.num_in == self.num_dec):
            raise ValueError(
                f"Mismatch number of inputs: expected {self.num_dec} but "
                f" got a constraints {name} with {c.num_in}"
            )

        # Update the input scales using the nlp's dec_var_scales
        c.set_input_scales(self._dec_var_scales)
        self._constraints.update({name: c})
''', '''        self._constraints.update({name: c})
        if not (c.num_in == self.num_dec):
            raise ValueError(
                f"Mismatch number of inputs: expected {self.num_dec} but "
                f" got a constraints {name} with {c.num_in}"
            )

        # Update the input scales using the nlp's dec_var_scales
        c.set_input_scales(self._dec_var_scales)
''')],
 HEAD + '''from lumos.optimal_control.nlp import BaseConstraints, CompositeProblem
def con(n, m):
    return BaseConstraints(n, m, lambda x: np.zeros(m), lambda x: np.ones((m, n)), lambda x, l: np.zeros((n, n)))
p = CompositeProblem(3)
p.add_constraints("a", con(3, 2))
try:
    p.add_constraints("b", con(4, 2))
    raise SystemExit("accepted")
except ValueError:
    pass
assert p.num_con == 2, p.num_con
''', "a component of the wrong size is rejected and the problem is used afterwards", "the rejected component stays in the problem")

make("b09_hessian_old_params", "C05", [(CV, '''        self.set_params(params)

        def _constraints(x):''', '''        self.set_params(params)
        hess_params = self._params

        def _constraints(x):'''), (CV, '''                transformed_vars, lagrange, self._get_mesh(x), self._params
            )
''', '''                transformed_vars, lagrange, self._get_mesh(x), hess_params
            )
''')],
 '''import numpy as np
from collections import namedtuple
from lumos.optimal_control.nlp import MappedConstraints
from lumos.optimal_control.convolution import ConvConstraints
from lumos.optimal_control.utils import DecVarOperator
IO = namedtuple("IO", "states states_dot inputs outputs con_outputs residuals")
io = IO(("a",), ("a",), ("u",), (), (), ())
op = DecVarOperator(io, 2, 2, ("states", "inputs"), ())
m = MappedConstraints(2, 1, lambda x, t, p: np.array([p * x[0] ** 2]), lambda x, t, p: np.array([2 * p * x[0]]),
                      lambda x, l, t, p: np.array([2 * p * l[0]]), (np.array([0]), np.array([0])), (np.array([0]), np.array([0])))
c = ConvConstraints(m, op, np.linspace(0, 1, 3), lambda x: 1.0, 1.0)
c.set_params(5.0)
assert np.allclose(c.hessian(np.ones(op.num_dec), np.ones(3)), 10.0)
''', "parameters changed after the problem was built, and the Hessian", "the Hessian still uses the parameters given at construction")

make("b10_integral_from_zero", "C06", [(CO, "p(evaluation_points) - p(support[0]) for p in polynomials", "p(evaluation_points) - p(min(0.0, support[0])) for p in polynomials")],
 HEAD + '''from lumos.optimal_control.collocation import build_lagrange_integration_matrix
s = np.array([0.5, 1.0, 2.0])
M = build_lagrange_integration_matrix(s, s)
assert np.allclose(M @ s, s ** 2 / 2 - 0.125), M @ s
''', "a support that starts at a positive point", "the integral starts at zero instead of the first support point")

make("b11_duplicate_points", "C07", [(S, "if not np.all(np.diff(interval_points) > 0):", "if np.any(np.sort(interval_points) != interval_points):")],
 TOY + '''
try:
    FixedMeshOCP(Toy(), SimConfig(num_intervals=3, interval_points=np.array([0, .5, .5, 1.]), transcription="Trapezoidal"))
except ValueError:
    pass
else:
    raise SystemExit("an empty interval was accepted")
''', "interval points with a repeated point", "an interval of length zero is accepted")

make("b12_scales_accumulate", "C08", [(S, "        # create default decision variable scales\n        self._dec_var_scales = np.ones(self.num_dec)\n",
 "        # create default decision variable scales\n        self._dec_var_scales = np.array(self._dec_var_scales)\n")],
 TOY + '''
ocp = FixedMeshOCP(Toy(), SimConfig(num_intervals=3, scales=(ScaleConfig("states", "p", 5.0),)))
ocp.set_scales((ScaleConfig("states", "v", 2.0),))
assert np.all(ocp.dec_var_operator.get_var(ocp._dec_var_scales, "states", "p") == 1.0)
''', "setting scales a second time without a variable that had one", "the variable keeps its earlier scale while its constraint scale is reset")

make("b13_exclude_by_name", "C09", [(S, '''            if group_and_name in self._cyclic_vars:
                self._cyclic_vars.remove(group_and_name)
''', '''            if group_and_name in self._cyclic_vars:
                name = _split_full_name(group_and_name)[-1]
                self._cyclic_vars = [
                    v for v in self._cyclic_vars if not v.endswith(name)
                ]
''')],
 TOY + '''
@state_space_io(states=("x", "vx"), inputs=("u",), outputs=("e",))
class T2(StateSpaceModel):
    def forward(self, states, inputs, mesh=0.0):
        return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", x=states["vx"], vx=inputs["u"]),
                                     outputs=self.make_dict("outputs", e=states["vx"]))
ocp = ScaledMeshOCP(T2(), SimConfig(num_intervals=3, is_cyclic=True, non_cyclic_vars=["states.x"]))
assert ocp._constraints["cyclic"].num_con == 2, ocp._cyclic_vars
''', "an excluded variable whose name ends another variable's name", "the other variable is not tied either")

make("b14_structure_at_ones", "C10", [(S, "        x0 = np.random.randn(self.num_dec)\n        algebraic_jac", "        x0 = np.ones(self.num_dec)\n        algebraic_jac")],
 TOY + '''
@state_space_io(states=("x", "v"), inputs=("u",), outputs=("e",))
class T3(StateSpaceModel):
    def forward(self, states, inputs, mesh=0.0):
        return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", x=states["v"] * (states["v"] - 2.0), v=inputs["u"]),
                                     outputs=self.make_dict("outputs", e=states["v"]))
np.random.seed(1)
ocp = FixedMeshOCP(T3(), SimConfig(num_intervals=3, is_condensed=True))
x = np.random.rand(ocp.num_dec)
assert np.allclose(dense(ocp, x), fd_jac(ocp.constraints, x), atol=1e-5)
''', "a model with a derivative that vanishes at one", "entries are missing from the condensed Jacobian's structure")

make("b15_shared_subtrees", "C12", [(TU, '''        d = deepcopy(d)
        tree = cls(d["data"])

        for k, v in d["children"].items():
            tree.add_child(name=k, subtree=cls.from_dict(v))
''', '''        tree = cls(d["data"].copy() if isinstance(d["data"], dict) else d["data"])

        for k, v in d["children"].items():
            tree.add_child(name=k, subtree=cls.from_dict(v))
''')],
 HEAD + '''from lumos.models.tree_utils import ParameterTree
a = np.zeros(3)
d = {"data": {"k": 1.0}, "children": {"c": {"data": {"a": a}, "children": {}}}}
t = ParameterTree.from_dict(d)
t.get_param("c.a")[1] = 7.0
assert a[1] == 0.0
''', "an array parameter changed in place after building the tree from a dictionary", "the dictionary changes with the tree")

make("b16_con_output_order", "C13", [(MB, '''        return {c: outputs[c] for c in self.get_group_names("con_outputs")}
''', '''        names = self.get_group_names("con_outputs")
        return {c: v for c, v in zip(sorted(names), (outputs[n] for n in sorted(names)))} if len(set(names)) == len(names) else {c: outputs[c] for c in names}
''')],
 "raise SystemExit(0)\n", "", "")

make("b17_heading_interp", "C15", [(TR, '''        return np.interp(s, self._track_data["s"], self._track_data["heading"])
''', '''        return np.interp(
            s, self._track_data["s"], np.unwrap(self._track_data["heading"])
        )
''')],
 HEAD + '''from lumos.models.tracks import RaceTrack
s = np.linspace(0, 20, 5)
t = RaceTrack.from_curvilinear(s, np.full(5, 0.8))
assert np.allclose(t.heading_at(s), 0.8 * s), t.heading_at(s)
''', "samples between which the heading changes by more than half a turn", "the heading is wrapped between the samples")

make("b18_drive_split", "C17", [(SV, '''        drive_torque_rl = (drive_power + delta_torque * wheel_speed["rr"]) / (
            wheel_speed["rl"] + wheel_speed["rr"]
        )
''', '''        drive_torque_rl = (
            drive_power / (wheel_speed["rl"] + wheel_speed["rr"]) + 0.5 * delta_torque
        )
''')],
 TOY.replace("@state_space_io", "import lumos.models\nfrom lumos.models.vehicles.simple_vehicle import SimpleVehicle\nfrom lumos.models.tires.pacejka import MF52\n@state_space_io", 1) + '''
import lumos.models
from lumos.models.simple_vehicle_on_track import SimpleVehicleOnTrack
m = SimpleVehicleOnTrack().get_submodel("vehicle")
st = dict(vx=30., vy=.1, yaw_rate=.1, wheel_speed_fl=90., wheel_speed_fr=91., wheel_speed_rl=60., wheel_speed_rr=110.)
o = m.forward(st, dict(throttle=.5, brake=0., steer=.1, ax=1., ay=2.)).outputs
P = .5 * m._params["max_power"]
assert abs(o["drive_torque_rl"] * 60. + o["drive_torque_rr"] * 110. - P) < 1e-6 * P
''', "rear wheels turning at different speed", "the drive power is not conserved")

make("b19_layer_order", "C19", [(AE, "        return [v for k, v in weights.items() if k.startswith(cls.weights_prefix)]\n",
 "        return [weights[k] for k in sorted(weights) if k.startswith(cls.weights_prefix)]\n")],
 HEAD + '''import lumos.models
from lumos.models.aero.aero import MLPAero
class Deep(MLPAero):
    num_layers = 11
    layer_dim = 3
np.random.seed(0)
w = Deep.get_default_params()
ws = [v for k, v in w.items() if k.startswith("weights")]
got = Deep._dict_to_list(w)
assert all(a is b for a, b in zip(ws, got))
''', "a network of more than ten layers", "layers are applied in the order of their names' spelling")

make("b20_scale_missed", "C20", [(MS, '''        for _, c in self._constraints.items():
            c.set_input_scales(self._dec_var_scales)
''', '''        for _, c in self._constraints.items():
            if c._input_scales is not self._dec_var_scales:
                c.set_input_scales(self._dec_var_scales)
''')],
 TOY + '''
from lumos.optimal_control.model_solver import ModelSolver
s = ModelSolver(Toy(), "casadi", ("e",))
s.set_var_scale("states", "v", 3.0)
np.random.seed(0)
x = np.random.rand(s.num_dec)
assert np.allclose(dense(s, x), fd_jac(s.constraints, x), atol=1e-5), abs(dense(s, x) - fd_jac(s.constraints, x)).max()
''', "a scale update", "the Jacobian's scales are not updated")

make("b21_log_scaled_mesh", "C21", [(S, '''        result_df["mesh"] = self._flat_normalized_mesh * self._get_mesh_scale(
            unscaled_dec_var
        )
''', '''        result_df["mesh"] = self.get_mesh_from_dec_var(dec_var)
''')],
 TOY + '''
import pandas as pd
ocp = ScaledMeshOCP(Toy(), SimConfig(num_intervals=3, scales=(ScaleConfig("global", "mesh_scale", 4.0),)))
x = np.random.rand(ocp.num_dec)
ocp._create_result_df(x, "r.csv", 0)
df = pd.read_csv("r.csv")
assert np.allclose(df["mesh"].values[-1], 4.0 * x[-1]), df["mesh"]
''', "a free mesh scale with a scale other than one", "the logged mesh is in scaled units")

make("b22_penalty_mean", "C22", [(LT, '''        return (structured_vars.inputs ** 2 * weight_matrix).sum() / self.num_stages
''', '''        return (structured_vars.inputs ** 2 * np.sign(weight_matrix)).sum() / self.num_stages
''')],
 HEAD + '''from types import SimpleNamespace
from lumos.simulations.laptime_simulation import LaptimeSimulation as L
from lumos.optimal_control.utils import DecVarOperator
IO = namedtuple("IO", "states states_dot inputs outputs con_outputs residuals")
op = DecVarOperator(IO(("a",), ("a",), ("steer", "b"), (), (), ()), 2, 2, ("states", "inputs"), ())
o = L.__new__(L); o.dec_var_operator = op; o.model = SimpleNamespace(num_inputs=2)
x = np.arange(op.num_dec, dtype=float)
w = {"steer": 3.0, "b": 0.5}
want = sum(3.0 * x[1 + 3 * s] ** 2 + 0.5 * x[2 + 3 * s] ** 2 for s in range(3)) / 3
assert np.isclose(o._inputs_penalty(x, w), want)
''', "weights other than the default of one", "the objective value ignores the weight")

make("b23_cmap_stale", "C27", [(NU, "        if batch != fmapped.batch_size:\n", "        if fmapped.batch_size is None or batch > fmapped.batch_size:\n")],
 HEAD + '''import casadi as cas
from lumos.numpy import cmap
x = cas.MX.sym("x", 2)
f = cmap(cas.Function("f", [x], [x ** 2]))
a = np.arange(12.).reshape(6, 2)
assert f(a).shape == (6, 2)
assert np.asarray(f(a[:3])).shape == (3, 2)
''', "a second call with a smaller batch that divides the first", "the map of the larger batch is reused")
make("b24_param_order", "C12", [(TU, '''            parent._children[child_name] = subtree
        else:''', '''            parent._children.pop(child_name)
            parent._children[child_name] = subtree
        else:''')],
 "raise SystemExit(0)\n", "", "")

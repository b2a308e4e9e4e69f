import sys; sys.path.insert(0, "/verif/tools")
from plant import make
src = open("/verif/tools/bugs/b2.py").read()
exec(src[:src.index("make(")])          # file names and the toy model
CM = "lumos/models/composition.py"
DR = "lumos/simulations/drone_simulation.py"
DIR = "import os, tempfile\nos.chdir(tempfile.mkdtemp())\nimport numpy as np\n"

make("b53_inherited_param", "C12", [(TU, '''        return t._data[param_key]
''', '''        # parameters not overridden by the submodel are those of the whole model
        return t._data[param_key] if param_key in t._data else self._data[param_key]
''')], DIR + '''
from lumos.models.tree_utils import ParameterTree
t = ParameterTree({"k": 1.0, "m": 2.0}, {"sub": ParameterTree({"a": 3.0})})
try:
    t.set_param("sub.m", 5.0)
except KeyError:
    pass
else:
    raise SystemExit("a parameter that does not exist was set")
assert t.to_dict()["children"]["sub"]["data"] == {"a": 3.0}, t
''', "a path to a submodel with the name of a parameter of the whole model", "a path that does not exist is accepted and adds a parameter")

make("b54_path_cleaned", "C14", [(CM, '''        path_to_submodel = path.split(delimiter)
''', '''        # tolerate a delimiter at the end, or twice
        path_to_submodel = [name for name in path.split(delimiter) if name]
''')], DIR + '''
from lumos.models.simple_vehicle_on_track import SimpleVehicleOnTrack
m = SimpleVehicleOnTrack(model_config=SimpleVehicleOnTrack.get_recursive_default_model_config())
assert m.get_submodel("vehicle.aero") is m.get_submodel("vehicle/aero", "/")
for path in ("vehicle..aero", "vehicle.aero.", ""):
    try:
        m.get_submodel(path)
    except KeyError:
        continue
    raise SystemExit("the path %r was accepted" % path)
''', "a path with an empty name in it", "an unknown path is accepted")

make("b55_config_of_base", "C14", [(CM, '''        if actual_cls_str != expected_cls_str:
''', '''        if not any(c.__name__ == actual_cls_str for c in type(self).__mro__):
''')], DIR + '''
from lumos.models.base import Model, ModelReturn, model_io
from lumos.models.tree_utils import ConfigTree
@model_io(inputs=("a",), outputs=("b",))
class Base(Model):
    def forward(self, inputs):
        return ModelReturn(outputs=dict(b=inputs["a"]))
@model_io(inputs=("a",), outputs=("b",))
class Derived(Base):
    pass
Derived(model_config=ConfigTree("Derived"))
try:
    Derived(model_config=ConfigTree("Base"))
except TypeError:
    pass
else:
    raise SystemExit("the configuration of another class was accepted")
''', "a model class derived from another one, built with the configuration of its base class", "the configuration of another class is accepted")

make("b56_own_params_only", "C28", [(MB, '''        def custom_batched_forward(_states, _inputs, _mesh, _params):
            self.set_recursive_params(_params)
''', '''        def custom_batched_forward(_states, _inputs, _mesh, _params):
            self._params = _params.data.copy()
''')], DIR + '''
from lumos.models.base import *
from lumos.models.composition import ModelMaker
@model_io(inputs=("a",), outputs=("y",))
class Gain56(Model):
    def forward(self, inputs):
        return ModelReturn(outputs=dict(y=self._params["k"] * inputs["a"]))
    @classmethod
    def get_default_params(cls):
        return {"k": 2.0}
ModelMaker.add_to_registry(Gain56)
e = np.zeros(0, int)
@state_space_io(states=("x",), inputs=("u",), outputs=())
class Top56(StateSpaceModel):
    @classmethod
    def get_default_submodel_config(cls):
        return {"sub": "Gain56"}
    def forward(self, states, inputs, mesh=0.0):
        y = self.call_submodel("sub", inputs=dict(a=states["x"])).outputs["y"]
        return StateSpaceModelReturn(states_dot=dict(x=y), outputs=self.make_outputs_dict())
    def _implicit_jac(self, *a):
        return np.zeros(0)
    _implicit_hess = _implicit_jac
    def _implicit_jacobianstructure(self):
        return e, e
    _implicit_hessianstructure = _implicit_jacobianstructure
m = Top56()
m.make_model_algebra_cons("custom")
t = m.get_recursive_params()
t.set_param("sub.k", 5.0)
r = m.batched_forward(np.ones((2, 1)), np.ones((2, 1)), np.zeros(2), t)
assert np.allclose(r.states_dot, 5.0), r.states_dot
''', "a model with submodels on the custom backend, and a parameter of a submodel", "the evaluation keeps the submodels' old parameters")

make("b57_total_time_objective", "C29", [(DR, '''        return self._time_objective(x)
''', '''        # the objective of this problem is the time
        return self.objective(x)
''')], DIR + '''
from lumos.optimal_control.config import ScaleConfig
from lumos.simulations.drone_simulation import DroneSimulation, DroneSimulationConfig
s = DroneSimulation(sim_config=DroneSimulationConfig(num_intervals=3, backend="casadi"))
x = np.append(np.zeros(s.num_dec - 1), 3.0)
assert abs(s.get_total_time(x) - 3.0) < 1e-12
s.set_scales((ScaleConfig("global", "mesh_scale", 2.0),))
assert abs(s.get_total_time(x) - 3.0) < 1e-12, s.get_total_time(x)
''', "a scale on the total time, or another objective", "the total time is not the mesh scale")

make("b58_split_by_name", "C04", [(N, '''        values = np.split(c, np.cumsum(indices[:-1]))
''', '''        values = np.split(c, np.cumsum(indices)[: len(indices) - 1])
        if len(set(indices)) == 1:
            # components of equal size: split in one go
            return dict(zip(sorted(self._constraints), np.reshape(c, (len(indices), -1))))
''')], DIR + '''
from lumos.optimal_control.nlp import *
p = CompositeProblem(2)
for name in ("b", "a"):
    p.add_constraints(name, BaseConstraints(2, 2, lambda x: x, lambda x: np.array([1.0, 0, 0, 1]), lambda x, l: np.zeros(4)))
d = p.split_constraints(np.arange(4.0))
assert list(d) == ["b", "a"] and list(d["b"]) == [0, 1] and list(d["a"]) == [2, 3], d
''', "components of equal size whose names are not in alphabetical order", "each component gets the rows of another one")

make("b59_condensed_user_bounds", "C10", [(S, '''            bounds += tuple(
                BoundConfig("states_dot", n, (0, 0))
                for n in self.model.get_group_names("states_dot")
            )
''', '''            bounds = (
                *(
                    BoundConfig("states_dot", n, (0, 0))
                    for n in self.model.get_group_names("states_dot")
                ),
                *bounds,
            )
''')], TOY + '''
o = ScaledMeshOCP(Toy(), SimConfig(num_intervals=3, is_condensed=True, backend="casadi",
                                   bounds=(BoundConfig("states_dot", "p", (-1.0, 2.0)),)))
assert (o.get_lb("states_dot", "p") == 0).all() and (o.get_ub("states_dot", "p") == 0).all()
''', "a condensed problem whose configuration has bounds on a state derivative", "the unused state derivatives are free variables")

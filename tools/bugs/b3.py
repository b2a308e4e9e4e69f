import sys; sys.path.insert(0, "/verif/tools")
from plant import make
src = open("/verif/tools/bugs/b2.py").read()
exec(src[:src.index("make(")])          # file names and the toy model
CFG = "lumos/optimal_control/config.py"
KI = "lumos/models/kinematics.py"
DR = "lumos/simulations/drone_simulation.py"
NI = "lumos/numpy/__init__.py"

make("b25_bc_replaced", "C08", [(S, "        self._boundary_conditions += boundary_conditions\n        self._apply_boundary_conditions()\n",
'''        # A new condition on a variable takes the place of the previous one on it.
        updated = {(bc.group, bc.name) for bc in boundary_conditions}
        self._apply_boundary_conditions()
        self._boundary_conditions = tuple(
            bc
            for bc in self._boundary_conditions
            if (bc.group, bc.name) not in updated
        ) + tuple(boundary_conditions)
        self._apply_boundary_conditions()
''')], TOY + '''
ocp = ScaledMeshOCP(Toy(), SimConfig(num_intervals=3, boundary_conditions=(BoundaryConditionConfig(0, "states", "p", 1.0),)))
ocp.update_boundary_conditions((BoundaryConditionConfig(-1, "states", "p", 2.0),))
ocp.update_bounds((BoundConfig("states", "p", (-5.0, 5.0)),))
assert list(ocp.get_lb("states", "p")) == [1.0, -5.0, -5.0, 2.0], ocp.get_lb("states", "p")
''', "a boundary condition added later on the same variable at another stage, then a bound update on that variable",
"the earlier boundary condition is lost")

make("b26_condensed_uniform", "C10", [(S, '''        interval_length = self._normalized_interval_length * self._get_mesh_scale(x)

        lagrange_for_continuity = lagrange_for_continuity.reshape(''', '''        interval_length = np.full(
            self.num_intervals, self._get_mesh_scale(x) / self.num_intervals
        )

        lagrange_for_continuity = lagrange_for_continuity.reshape(''')], TOY + '''
np.random.seed(0)
ocp = ScaledMeshOCP(Toy(), SimConfig(num_intervals=3, interval_points=np.array([0, .2, .3, 1.]), is_condensed=True))
c = ocp._constraints["model_algebra"]
x = np.random.rand(ocp.num_dec); l = np.random.rand(c.num_con)
i = ocp.dec_var_operator.get_group_indcies_in_dec("inputs")
H = c.get_csc_hessian(x, l).toarray()
J = lambda x: c.get_csc_jacobian(x).toarray()
h = 1e-6
for k in i:
    e = np.eye(ocp.num_dec)[k] * h
    g = (l @ J(x + e) - l @ J(x - e)) / (2 * h)
    assert abs(H[k, k] - g[k]) < 1e-5, (H[k, k], g[k])
''', "a condensed problem with intervals of different lengths, exact Hessian", "the condensed Hessian uses the mean interval length")

make("b27_options_stick", "C23", [(N, '''        ipopt_options = self._get_default_ipopt_options()
        ipopt_options.update(user_options)
''', '''        if not hasattr(self, "_ipopt_options"):
            self._ipopt_options = self._get_default_ipopt_options()
        ipopt_options = self._ipopt_options
        ipopt_options.update(user_options)
''')], '''import os, tempfile
os.chdir(tempfile.mkdtemp())
import numpy as np
import lumos.optimal_control.nlp as nlp
seen = []
class Fake:
    def __init__(self, **kw): self.o = {}; seen.append(self.o)
    def add_option(self, k, v): self.o[k] = v
    def solve(self, x, **kw): return x, {"status": 0}
nlp.cyipopt.Problem = Fake
class P(nlp.CompositeProblem):
    def get_init_guess(self): return np.zeros(2)
p = P(2)
p.add_constraints("c", nlp.BaseConstraints(2, 1, lambda x: x[:1], lambda x: np.array([1.0, 0.0]), lambda x, l: np.zeros(4)))
p.cl = p.cu = np.zeros(1)
opts = dict(print_timing_statistics="no")
p.solve(max_iter=7, tol=1e-9, **opts)
p.solve(**opts)
assert seen[0]["max_iter"] == 7 and seen[1]["max_iter"] == 100, seen
''', "two solves of one problem with different user options", "options of an earlier solve stay in effect")

make("b28_metrics_row", "C21", [(S, '''                for iter_df in df_list:
                    idx, column = iter_df[con_names].abs().stack().idxmax()
                    iter_num = iter_df["iter"][0]
''', '''                df_list.sort(key=lambda df: df["iter"][0])
                for iter_num, iter_df in enumerate(df_list):
                    idx, column = iter_df[con_names].abs().stack().idxmax()
''')], TOY + '''
import pandas as pd
ocp = ScaledMeshOCP(Toy(), SimConfig(num_intervals=3, logging_config=LoggingConfig(sim_name="t", results_dir=tempfile.mkdtemp(), log_every_nth_iter=2)))
r = np.random.RandomState(0)
for k in range(6):
    ocp.objective(r.rand(ocp.num_dec))
    ocp.intermediate(0, k, *[0.0] * 9)
ocp._log_final_iter()
m = pd.read_csv(os.path.join(ocp.logging_dir, "metrics_history.csv"))
rec = [k for k in range(6) if m["max_violation_con_name"][k] != "NotRecorded"]
assert rec == [0, 2, 4, 5], rec
''', "logging every n-th iteration with n > 1", "the largest violation is written to the wrong iterations' rows")

make("b29_widest_track", "C25", [(LT, '''            BoundConfig("states", "n", (-right_distance, left_distance)),
        )

        self.update_bounds''', '''            BoundConfig(
                "states",
                "n",
                (
                    np.maximum(-right_distance, self.get_lb("states", "n")),
                    np.minimum(left_distance, self.get_ub("states", "n")),
                ),
            ),
        )

        self.update_bounds''')], '''import os, tempfile
os.chdir(tempfile.mkdtemp())
import numpy as np
from lumos.simulations.laptime_simulation import LaptimeSimulation, LTCConfig
def track(w, f):
    t = np.linspace(0, 3, 40)
    np.savetxt(f, np.stack([400 * np.sin(t), 400 * np.cos(t), 0 * t + w, 0 * t + w], -1), delimiter=",", comments="", header="# x_m,y_m,w_tr_right_m,w_tr_left_m")
    return f
a, b = track(3.0, "a.csv"), track(6.0, "b.csv")
cfg = LTCConfig(track=a, num_intervals=3, backend="casadi", boundary_conditions=())
s = LaptimeSimulation(sim_config=cfg)
s.set_track(b)
assert np.allclose(s.get_ub("states", "n"), 6.0) and np.allclose(s.get_lb("states", "n"), -6.0), (s.get_lb("states", "n"), s.get_ub("states", "n"))
''', "changing to a wider track after construction", "the lateral bounds of the first track stay in effect")

make("b30_guess_cached", "C28", [(LT, '''    def get_init_guess(self):
        vx = 50
''', '''    def get_init_guess(self):
        # The guess only depends on the track
        if getattr(self, "_init_guess_track", None) is not self._track:
            self._init_guess = self._make_init_guess()
            self._init_guess_track = self._track
        return np.copy(self._init_guess)

    def _make_init_guess(self):
        vx = 50
''')], '''import os, tempfile
os.chdir(tempfile.mkdtemp())
import numpy as np
from lumos.simulations.laptime_simulation import LaptimeSimulation, LTCConfig
t = np.linspace(0, 3, 40)
np.savetxt("a.csv", np.stack([400 * np.sin(t), 400 * np.cos(t), 0 * t + 5, 0 * t + 5], -1), delimiter=",", comments="", header="# x_m,y_m,w_tr_right_m,w_tr_left_m")
s = LaptimeSimulation(sim_config=LTCConfig(track="a.csv", num_intervals=3, backend="casadi", boundary_conditions=()))
x = s.get_init_guess()
s.modify_model_param("vehicle.vehicle_mass", 900.0)
y = s.get_init_guess()
assert not np.allclose(x, y), "the guess is that of the old parameters"
''', "asking for the initial guess, changing a parameter, asking again", "the initial guess stays that of the old parameters")

make("b31_unknown_backend_resets", "C24", [(NI, '''        logger.warn(
            f"{backend} is not a valid backend. Staying with {__BACKEND} backend"
        )
''', '''        # fall back to the default
        logger.warn(f"{backend} is not a valid backend. Using the numpy backend")
        __BACKEND = "numpy"
''')], '''import lumos.numpy as lnp
with lnp.use_backend("jax"):
    lnp.set_backend("torch")
    assert lnp.get_backend() == "jax"
with lnp.use_backend("casadi"):
    with lnp.use_backend("nothing"):
        assert lnp.get_backend() == "casadi"
''', "selecting an unknown backend while another than numpy is active", "the active backend changes")

make("b32_drone_guess_params", "C29", [(DR, '''            states, inputs, self.get_mesh_from_scale(t_guess), self._params
''', '''            states,
            inputs,
            self.get_mesh_from_scale(t_guess),
            self.model.get_recursive_default_params(),
''')], '''import os, tempfile
os.chdir(tempfile.mkdtemp())
import numpy as np
from lumos.simulations.drone_simulation import DroneSimulation, DroneSimulationConfig
s = DroneSimulation(sim_config=DroneSimulationConfig(num_intervals=3, backend="casadi"))
s.modify_model_param("gravity", 2.0)
x = s.get_init_guess()
d = s.dec_var_operator.unflatten_var(x)
i = s.model.get_var_index("states", "z_dot")
z = d.states_dot[:, s.model.get_group_names("states_dot").index("states_dot.z_dot") if "states_dot.z_dot" in s.model.get_group_names("states_dot") else i]
th = d.states[:, s.model.get_var_index("states", "theta")]
assert np.allclose(z, 10 * np.cos(th) - 2.0), z
''', "other parameters than the defaults", "the initial guess' accelerations are those of the default gravity")

make("b33_shared_axis_offsets", "C13", [(MB, '''        return self.get_var_index(group=group, name=name) + offsets[group]
''', '''        # names are unique over the groups, so the plain list of names tells the position
        flat_names = sum((self.get_group_names(g) for g in self._implicit_inputs), ())
        return flat_names.index(name) if group != "states_dot" else (
            self.get_var_index(group=group, name=name) + offsets[group]
        )
''')], TOY + '''
@state_space_io(states=("a", "b"), inputs=("b", "u"), outputs=("y",))
class M(StateSpaceModel):
    def __init__(self, params={}, model_config={}):
        super().__init__(params=params, model_config=model_config)
    def forward(self, states, inputs, mesh=0.0):
        return None
m = M()
assert m.get_var_index_in_flat("inputs", "b") == 2, m.get_var_index_in_flat("inputs", "b")
''', "a state and an input (or a constrained output) of the same name", "the flat index of the second is that of the first")

make("b35_asdict_shallow", "C26", [(CFG, '''        return asdict(self)
''', '''        d = asdict(self)
        # no need to copy the (possibly large) mesh
        d["interval_points"] = self.interval_points
        return d
''')], '''import numpy as np
from lumos.optimal_control.config import SimConfig
p = np.array([0, 0.4, 1.0])
c = SimConfig(num_intervals=2, interval_points=p)
d = c.to_dict()
d["interval_points"][1] = 0.9
assert c.interval_points[1] == 0.4
''', "changing the mesh in the dictionary after the conversion", "the configuration changes with its dictionary")


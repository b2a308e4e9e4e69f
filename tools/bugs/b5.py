import sys; sys.path.insert(0, "/verif/tools")
from plant import make
src = open("/verif/tools/bugs/b2.py").read()
exec(src[:src.index("make(")])          # file names and the toy model

NLP = '''import os, tempfile
os.chdir(tempfile.mkdtemp())
import numpy as np
import lumos.optimal_control.nlp as nlp
from lumos.optimal_control.nlp import *
'''

make("b48_zero_factor", "C04", [(N, '''            vals.append(np.ravel(p.hessian(x) * obj_factor))
''', '''            # no factor given: the Hessian of the objectives themselves
            vals.append(np.ravel(p.hessian(x) * (obj_factor or 1.0)))
''')], NLP + '''
p = CompositeProblem(2)
p.add_objective("sq", BaseObjective(2, lambda x: x @ x, lambda x: 2 * x, lambda x: np.array([2.0, 0, 0, 2])))
p.add_constraints("c", BaseConstraints(2, 1, lambda x: np.array([x[0] * x[1]]), lambda x: x[::-1].copy(),
                                       lambda x, l: l[0] * np.array([0.0, 1, 1, 0])))
rows, cols = p.hessianstructure()
H = np.zeros((2, 2))
np.add.at(H, (rows, cols), p.hessian(np.ones(2), np.array([3.0]), 0.0))
assert np.allclose(H, [[0, 3.0], [0, 0]]), H
''', "an objective factor of zero, as the solver asks for in its restoration phase", "the Hessian contains the objectives'")

make("b49_partial_multipliers", "C23", [(N, '''        scaled_sol, info = nlp.solve(scaled_init_guess, lagrange=lagrange, zl=zl, zu=zu)
''', '''        if not (len(zl) and len(zu)):
            # the solver needs both to start from them
            zl, zu = [], []
        scaled_sol, info = nlp.solve(scaled_init_guess, lagrange=lagrange, zl=zl, zu=zu)
''')], NLP + '''
got = []
class Solver:
    def __init__(self, n, m, problem_obj, lb, ub, cl, cu):
        self.n, self.m = n, m
    def add_option(self, *a):
        pass
    addOption = add_option
    def solve(self, x, lagrange=[], zl=[], zu=[]):
        got.append((lagrange, zl, zu))
        return x, dict(status=0, status_msg=b"", obj_val=0.0, x=x, g=[], mult_g=[], mult_x_L=[], mult_x_U=[])
nlp.cyipopt.Problem = Solver
p = CompositeProblem(2)
p.add_objective("sq", BaseObjective(2, lambda x: x @ x, lambda x: 2 * x, lambda x: np.array([2.0, 0, 0, 2])))
p.add_constraints("c", BaseConstraints(2, 1, lambda x: x[:1], lambda x: np.array([1.0, 0]), lambda x, l: np.zeros(4)))
p.lb, p.ub, p.cl, p.cu = -np.ones(2), np.ones(2), np.zeros(1), np.zeros(1)
p.solve(init_guess=np.zeros(2), print_level=0, zl=np.array([1.0, 2.0]))
assert list(got[0][1]) == [1.0, 2.0], got
''', "a warm start with the multipliers of one side of the bounds only", "they are not handed to the solver")

make("b50_empty_component_split", "C04", [(N, '''        indices = [p.num_con for p in self._constraints.values()]
        values = np.split(c, np.cumsum(indices[:-1]))
''', '''        indices = [p.num_con for p in self._constraints.values() if p.num_con > 0]
        values = np.split(c, np.cumsum(indices[:-1]))
''')], NLP + '''
p = CompositeProblem(2)
mk = lambda m: BaseConstraints(2, m, lambda x: np.full(m, float(m)), lambda x: np.zeros(2 * m), lambda x, l: np.zeros(4))
for name, m in (("a", 2), ("none", 0), ("b", 3)):
    p.add_constraints(name, mk(m))
d = p.split_constraints(np.array([2.0, 2, 3, 3, 3]))
assert list(d) == ["a", "none", "b"] and [len(v) for v in d.values()] == [2, 0, 3], d
''', "a constraint component without constraints between others", "the values of later components are under the wrong name")

make("b51_small_scale_change", "C03", [(N, '''    def set_con_scales(self, scales: np.ndarray):
''', '''    def set_con_scales(self, scales: np.ndarray):
        if np.allclose(scales, self._con_scales):
            # nothing to update
            return
''')], NLP + '''
c = BaseConstraints(2, 2, lambda x: x, lambda x: np.array([1.0, 0, 0, 1]), lambda x, l: np.zeros(4))
c.set_con_scales(np.array([1e-9, 1e-9]))
c.set_con_scales(np.array([2e-9, 1e-9]))
assert np.allclose(c.constraints(np.array([4e-9, 3e-9])), [2.0, 3.0]), c.constraints(np.array([4e-9, 3e-9]))
''', "new constraint scales that differ from the old ones by less than a tolerance, e.g. small ones", "the constraints keep the old scales")

make("b52_zero_coefficient", "C19", [("lumos/models/aero/aero.py", '''        return ModelReturn(outputs=self._params)
''', '''        default = self.get_default_params()
        return ModelReturn(
            outputs={name: self._params.get(name) or value for name, value in default.items()}
        )
''')], '''import os, tempfile
os.chdir(tempfile.mkdtemp())
import numpy as np
from lumos.models.aero.aero import ConstAero
m = ConstAero()
p = m.get_recursive_params()
name = m.names.outputs[0]
for n in m.names.outputs:
    p.set_param(n, 0.0)
m.set_recursive_params(p)
r = m.forward({k: 0.0 for k in m.names.inputs})
assert all(float(v) == 0.0 for v in r.outputs.values()), r
''', "a coefficient set to zero", "the default value is used instead")

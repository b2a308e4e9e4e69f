import sys; sys.path.insert(0, "/verif/tools")
from plant import make
U = "lumos/optimal_control/utils.py"
N = "lumos/optimal_control/nlp.py"
HEAD = "import numpy as np\nfrom collections import namedtuple\n"
IO = 'IO = namedtuple("IO", "states states_dot inputs outputs con_outputs residuals")\nio = IO(("a","b"), ("a","b"), ("u",), (), (), ())\n'

make("b01_group_stage", "C01", [(U, "        stage %= self.num_stages\n\n        return (\n            np.array(",
 "        stage = stage if stage >= 0 else self.num_stages - 1\n\n        return (\n            np.array(")],
 HEAD + "from lumos.optimal_control.utils import DecVarOperator\n" + IO +
 'op = DecVarOperator(io, 3, 3, ("states", "inputs"), ("m",))\n'
 'for s in range(-op.num_stages, op.num_stages):\n'
 '    want = [op.get_var_index_in_dec("states", n, s) for n in io.states]\n'
 '    assert list(op.get_group_indices_at_stage("states", s)) == want, (s, want)\n',
 "a group query at a negative stage other than -1", "group indices at stage -2 etc. are those of the last stage")

make("b02_keyword_order", "C01", [(U, "np.array([kwargs.pop(name) for name in self._global_var_names])",
 "np.array([v for k, v in kwargs.items() if k in self._global_var_names])")],
 HEAD + "from lumos.optimal_control.utils import DecVarOperator\n" + IO +
 'op = DecVarOperator(io, 2, 2, ("states", "inputs"), ("t_scale", "mesh_scale"))\n'
 'x = np.arange(op.num_dec, dtype=float)\n'
 'kw = op.unflatten_var(x)._asdict()\n'
 'assert np.array_equal(op.flatten_var(**dict(reversed(list(kw.items())))), x)\n',
 "two or more global variables passed as keywords in another order", "packing permutes the global variables")

make("b03_stale_hess_scale", "C03", [(N, "        self._input_scales = scales\n        self.update_jac_scales()\n        self.update_hess_scales()\n",
 "        self._input_scales = scales\n        self.update_jac_scales()\n        if np.any(scales != 1.0):\n            self.update_hess_scales()\n")],
 HEAD + '''from lumos.optimal_control.nlp import BaseConstraints
c = BaseConstraints(2, 1, lambda x: np.array([x[0] * x[1]]), lambda x: np.array([[x[1], x[0]]]),
                    lambda x, l: l[0] * np.array([0., 1., 1., 0.]), (np.array([[0, 0]]), np.array([[0, 1]])), None)
c.set_input_scales(np.array([2.0, 5.0]))
c.set_input_scales(np.ones(2))
h = c.get_csc_hessian(np.ones(2), np.ones(1)).toarray()
assert np.allclose(h, [[0, 1], [1, 0]]), h
''', "scales set to something else and then back to one", "Hessian keeps the old scaling")

make("b04_row_offset", "C04", [(N, "            row_offset += p.num_con\n",
 "            row_offset += int(np.max(new_rows, initial=-1)) + 1\n")],
 HEAD + '''from lumos.optimal_control.nlp import BaseConstraints, CompositeProblem
def con(m, rows, cols):
    n = len(rows)
    return BaseConstraints(3, m, lambda x: np.zeros(m), lambda x: np.ones(n), lambda x, l: np.zeros(0),
                           (np.array(rows, int), np.array(cols, int)), (np.zeros(0, int), np.zeros(0, int)))
p = CompositeProblem(3)
p.add_constraints("a", con(3, [0, 1], [0, 1]))
p.add_constraints("b", con(2, [0, 1], [2, 2]))
r, c = p.jacobianstructure()
assert list(r) == [0, 1, 3, 4], r
''', "a component whose last constraint rows have no Jacobian entries", "later components' rows shift")

make("b05_inplace_offsets", "C05", [(U, """        new_idx_row = base_rows + interval * row_offset
        new_idx_col = base_cols + interval * col_offset

        idx_row.append(new_idx_row)
        idx_col.append(new_idx_col)
""", """        idx_row.append(np.array(base_rows))
        idx_col.append(np.array(base_cols))

        # advance to the next block
        base_rows += row_offset
        base_cols += col_offset
""")],
 HEAD + '''from lumos.optimal_control.nlp import MappedConstraints
from lumos.optimal_control.convolution import ConvConstraints
from lumos.optimal_control.utils import DecVarOperator
''' + IO + '''
op = DecVarOperator(io, 2, 2, ("states", "inputs"), ())
f = lambda x, m, p: np.array([x[0] * x[1]])
unit = MappedConstraints(3, 1, f, lambda x, m, p: np.array([x[1], x[0]]), lambda x, l, m, p: l[0] * np.ones(1),
                         (np.array([0, 0]), np.array([0, 1])), (np.array([0]), np.array([1])))
mk = lambda: ConvConstraints(unit, op, np.linspace(0, 1, 3), lambda x: 1.0, {})
a, b = mk(), mk()
assert np.array_equal(a.jacobianstructure()[1], b.jacobianstructure()[1])
assert list(b.jacobianstructure()[0]) == [0, 0, 1, 1, 2, 2], b.jacobianstructure()
''', "the same unit problem is used to build two stacked problems", "the unit problem's own structure is overwritten")

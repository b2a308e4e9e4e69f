"""Behaviour-preserving edits of the code, as someone else might make them; every check has to stay quiet on them.

python3 tools/refactors.py DIR      applies them to the copy of the repository in DIR
"""
import sys

OC, M = "lumos/optimal_control/", "lumos/models/"
EDITS = [
    # transcription
    (OC + "transcription.py", '''        A, B = self.get_continuity_matrices()
        continuity_con = A @ x - B @ x_dot * interval_length

        return continuity_con
''', '''        A, B = self.get_continuity_matrices()
        change = np.matmul(A, x)
        slope = np.matmul(B, x_dot)
        return change - slope * interval_length
'''),
    (OC + "transcription.py", '''    if name in TRANSCRIPTION_OPTIONS:
        return TRANSCRIPTION_OPTIONS[name](**kwargs)
    else:
        raise RuntimeError(
            "name is not a valid transcription type. "
            f"Valid options are {get_transcription_options()}"
        )''', '''    if name not in TRANSCRIPTION_OPTIONS:
        raise RuntimeError(
            "name is not a valid transcription type. "
            f"Valid options are {get_transcription_options()}"
        )
    cls = TRANSCRIPTION_OPTIONS[name]
    return cls(**kwargs)'''),
    (OC + "transcription.py", '''        self.collocation_points = (
            get_collocation_points(
                num_points=num_stages - 1, scheme=CollocationEnum.LGR
            )
            + 1
        ) / 2
''', '''        points = get_collocation_points(num_stages - 1, CollocationEnum.LGR)
        # from [-1, 1] to [0, 1]
        self.collocation_points = 0.5 * (points + 1.0)
'''),
    (OC + "transcription.py", '''        self.interp_points = np.insert(self.collocation_points, 0, 0)
''', '''        self.interp_points = np.concatenate([[0.0], self.collocation_points])
'''),
    (OC + "transcription.py", '''        return np.hstack(
            [
                -np.ones((self.num_stages_per_interval - 1, 1)),
                np.eye(self.num_stages_per_interval - 1),
            ]
        )
''', '''        n = self.num_stages_per_interval - 1
        return np.concatenate([np.full((n, 1), -1.0), np.identity(n)], axis=1)
'''),
    # convolution
    (OC + "convolution.py", '''            transformed_vars = self._transform_inputs(x)
            return np.ravel(
                unit_problem.mapped_constraints(
                    transformed_vars, self._get_mesh(x), self._params
                )
            )
''', '''            vals = unit_problem.mapped_constraints(*self._unit_args(x))
            return np.ravel(vals)
'''),
    (OC + "convolution.py", '''            transformed_vars = self._transform_inputs(x)
            return np.ravel(
                unit_problem.mapped_jacobian(
                    transformed_vars, self._get_mesh(x), self._params
                )
            )
''', '''            vals = unit_problem.mapped_jacobian(*self._unit_args(x))
            return np.ravel(vals)
'''),
    (OC + "convolution.py", '''    def _get_mesh(self, x):
''', '''    def _unit_args(self, x):
        return self._transform_inputs(x), self._get_mesh(x), self._params

    def _get_mesh(self, x):
'''),
    (OC + "convolution.py", '''        # Jacobian
        unit_rows, unit_cols = unit_problem.jacobianstructure()

        jac_struct = create_offset_structure(
            base_rows=np.ravel(unit_rows),
            base_cols=np.ravel(unit_cols),
            row_offset=unit_problem.num_con,
            col_offset=self._stride,
            num_blocks=self._batch,
        )

        # Hessian
        unit_rows, unit_cols = unit_problem.hessianstructure()

        hess_struct = create_offset_structure(
            base_rows=np.ravel(unit_rows),
            base_cols=np.ravel(unit_cols),
            row_offset=self._stride,
            col_offset=self._stride,
            num_blocks=self._batch,
        )

        return jac_struct, hess_struct''', '''        def blocks(structure, row_offset):
            rows, cols = structure
            return create_offset_structure(
                base_rows=np.ravel(rows),
                base_cols=np.ravel(cols),
                row_offset=row_offset,
                col_offset=self._stride,
                num_blocks=self._batch,
            )

        hess_struct = blocks(unit_problem.hessianstructure(), self._stride)
        jac_struct = blocks(unit_problem.jacobianstructure(), unit_problem.num_con)
        return jac_struct, hess_struct'''),
    # utils
    (OC + "utils.py", '''        return sum(self.get_stage_var_size(g) for g in self._stage_var_groups)
''', '''        total = 0
        for group in self._stage_var_groups:
            total += self.get_stage_var_size(group)
        return total
'''),
    (OC + "utils.py", '''        size_list = [self.get_stage_var_size(g) for g in self._stage_var_groups]
''', '''        size_list = list(map(self.get_stage_var_size, self._stage_var_groups))
'''),
    (OC + "utils.py", '''        vars = {k: v for k, v in zip(self._stage_var_groups, stage_vars)}
        vars.update({k: v for k, v in zip(self._global_var_names, global_vars)})

        return self._make_decision_varialbes(**vars)
''', '''        named = dict(zip(self._stage_var_groups, stage_vars))
        for name, value in zip(self._global_var_names, global_vars):
            named[name] = value

        return self._make_decision_varialbes(**named)
'''),
    (OC + "utils.py", '''                if stage > self.num_stages - 1 or stage < -self.num_stages:
                    raise ValueError(
                        (
                            f"stage must be bewteen [{-self.num_stages}, {self.num_stages-1}], "
                            f"but got {stage}"
                        )
                    )
                # allow negative index like python list
                stage %= self.num_stages
''', '''                stage = self._checked_stage(stage)
'''),
    (OC + "utils.py", '''        if stage > self.num_stages - 1 or stage < -self.num_stages:
            raise ValueError(
                (
                    f"stage must be bewteen [{-self.num_stages}, {self.num_stages-1}], "
                    f"but got {stage}"
                )
            )

        # allow negative index like python list
        stage %= self.num_stages
''', '''        stage = self._checked_stage(stage)
'''),
    (OC + "utils.py", '''    def get_group_indices_at_stage(self, group: str, stage: int) -> np.ndarray:
''', '''    def _checked_stage(self, stage: int) -> int:
        if not -self.num_stages <= stage < self.num_stages:
            raise ValueError(
                f"stage must be bewteen [{-self.num_stages}, {self.num_stages-1}], "
                f"but got {stage}"
            )
        return stage % self.num_stages

    def get_group_indices_at_stage(self, group: str, stage: int) -> np.ndarray:
'''),
    (OC + "utils.py", '''        new_idx_row = base_rows + interval * row_offset
        new_idx_col = base_cols + interval * col_offset

        idx_row.append(new_idx_row)
        idx_col.append(new_idx_col)
''', '''        idx_col.append(base_cols + interval * col_offset)
        idx_row.append(base_rows + interval * row_offset)
'''),
    (OC + "utils.py", '''            x[: self.num_dec - self.num_global_var],
''', '''            x[: self.num_all_stage_var],
'''),
    # nlp
    (OC + "nlp.py", '''        return (
            self._constraints(x * self._input_scales, *args, **kwargs)
            / self._con_scales
        )
''', '''        unscaled = x * self._input_scales
        values = self._constraints(unscaled, *args, **kwargs)
        return values / self._con_scales
'''),
    (OC + "nlp.py", '''        vals = self.jacobian(x)
        rows, cols = self.jacobianstructure()
        return csc_matrix(
''', '''        rows, cols = self.jacobianstructure()
        vals = self.jacobian(x)
        return csc_matrix(
'''),
    (OC + "nlp.py", '''        if self._sparse_hess:
            return self._hessian(x * self._input_scales) / self._hess_scales
        else:
            return self._hessian(x * self._input_scales) / self._hess_scales
''', '''        return self._hessian(x * self._input_scales) / self._hess_scales
'''),
    (OC + "nlp.py", '''        row_offset = 0
        for p in self._constraints.values():
            new_rows, new_cols = p.jacobianstructure()
            idx_rows.append(np.ravel(new_rows) + row_offset)
            idx_cols.append(np.ravel(new_cols))
            row_offset += p.num_con
''', '''        cons = list(self._constraints.values())
        offsets = np.cumsum([0] + [p.num_con for p in cons])
        for k, p in enumerate(cons):
            new_rows, new_cols = p.jacobianstructure()
            idx_cols.append(np.ravel(new_cols))
            idx_rows.append(offsets[k] + np.ravel(new_rows))
'''),
    (OC + "nlp.py", '''        vals = []

        lagrange = self.split_constraints(lagrange)
        for k, p in self._constraints.items():
            vals.append(np.ravel(p.hessian(x, lagrange[k])))

        for k, p in self._objectives.items():
            vals.append(np.ravel(p.hessian(x) * obj_factor))
''', '''        multipliers = self.split_constraints(lagrange)
        vals = [
            np.ravel(p.hessian(x, multipliers[k])) for k, p in self._constraints.items()
        ]
        vals += [
            np.ravel(obj_factor * p.hessian(x)) for p in self._objectives.values()
        ]
'''),
    (OC + "nlp.py", '''        if name in self._constraints:
            raise ValueError(
                f"{name} already exists in defined constraints. Please change to a new"
                f"name. Currently used names are {self._constraints.keys()}",
            )

        if not (c.num_in == self.num_dec):
            raise ValueError(
                f"Mismatch number of inputs: expected {self.num_dec} but "
                f" got a constraints {name} with {c.num_in}"
            )
''', '''        if c.num_in != self.num_dec:
            raise ValueError(
                f"Mismatch number of inputs: expected {self.num_dec} but "
                f" got a constraints {name} with {c.num_in}"
            )

        if name in self._constraints.keys():
            raise ValueError(f"{name} already exists in defined constraints.")
'''),
    # scaled mesh
    (OC + "scaled_mesh_ocp.py", '''        self._cyclic_vars = []
        # by default, make all states and inputs cyclic
        for group in ["states", "inputs"]:
            self._cyclic_vars += [
                _build_full_name(group, n) for n in self.model.get_group_names(group)
            ]
''', '''        self._cyclic_vars = [
            _build_full_name(group, n)
            for group in ("states", "inputs")
            for n in self.model.get_group_names(group)
        ]
'''),
    (OC + "scaled_mesh_ocp.py", '''        algebraic_con = np.reshape(algebraic_con, (self.num_stages, -1))
        # HACK: here we rely on the states_dot constraints being the first ones
        states_dot = algebraic_con[:, : self.model.num_states]
''', '''        algebraic_con = np.reshape(algebraic_con, (self.num_stages, -1))
        num_states = self.model.num_states
        states_dot = algebraic_con[:, :num_states]
'''),
    (OC + "scaled_mesh_ocp.py", '''                np.ravel(condensed_con),
                np.ravel(algebraic_con[:, self.model.num_states :]),
''', '''                condensed_con.ravel(),
                algebraic_con[:, num_states:].ravel(),
'''),
    (OC + "scaled_mesh_ocp.py", '''        mesh_list = []
        for interval, interval_mesh in enumerate(self._normalized_interval_mesh):
            if interval == 0:
                mesh_list.append(interval_mesh)
            else:
                mesh_list.append(interval_mesh[1:])
        return np.hstack(mesh_list)
''', '''        first, *rest = self._normalized_interval_mesh
        return np.concatenate([first] + [m[1:] for m in rest])
'''),
    (OC + "scaled_mesh_ocp.py", '''        _matrix_normalized_mesh = np.vstack(self._normalized_interval_mesh)
        return _matrix_normalized_mesh[:, -1] - _matrix_normalized_mesh[:, 0]
''', '''        return np.array([m[-1] - m[0] for m in self._normalized_interval_mesh])
'''),
    (OC + "scaled_mesh_ocp.py", '''        for interval in range(self.num_intervals):
            # TODO: need to handle getting interval points better
            if isinstance(self.transcription, LGR):
                interval_length = (
                    interval_points[interval + 1] - interval_points[interval]
                )
                current_interval_mesh = (
                    interval_points[interval]
                    + self.transcription.interp_points * interval_length
                )
            else:
                current_interval_mesh = np.array(
                    [interval_points[interval], interval_points[interval + 1]]
                )

            self._normalized_interval_mesh.append(current_interval_mesh)
''', '''        for start, end in zip(interval_points[:-1], interval_points[1:]):
            if isinstance(self.transcription, LGR):
                mesh = start + (end - start) * self.transcription.interp_points
            else:
                mesh = np.array([start, end])

            self._normalized_interval_mesh.append(mesh)
'''),
    (OC + "scaled_mesh_ocp.py", '''        keep_rows = np.array([r not in idx_remove for r in rows])
        keep_cols = np.array([c not in idx_remove for c in cols])
        keep = keep_rows & keep_cols

        return rows[keep], cols[keep]
''', '''        keep = ~(np.isin(rows, idx_remove) | np.isin(cols, idx_remove))

        return rows[keep], cols[keep]
'''),
    (OC + "scaled_mesh_ocp.py", '''        # Set input scales for all objectives
        for _, o in self._objectives.items():
            o.set_input_scales(self._dec_var_scales)

        # Set input scales for all constraints
        for _, c in self._constraints.items():
            c.set_input_scales(self._dec_var_scales)
''', '''        # Set input scales for all constraints and objectives
        for f in [*self._constraints.values(), *self._objectives.values()]:
            f.set_input_scales(self._dec_var_scales)
'''),
    (OC + "scaled_mesh_ocp.py", '''        for bc in self._boundary_conditions:
            self._set_var_bounds(
                group=bc.group, name=bc.name, stage=bc.stage, bounds=bc.value
            )
''', '''        for condition in self._boundary_conditions:
            self._set_var_bounds(
                condition.group, condition.name, condition.stage, condition.value
            )
'''),
    (OC + "scaled_mesh_ocp.py", '''        # Set all constriants to equality
        self.cl = np.zeros(self.num_con)
        self.cu = np.zeros(self.num_con)
''', '''        # Set all constriants to equality
        num_con = self.num_con
        self.cu, self.cl = np.zeros(num_con), np.zeros(num_con)
'''),
    (OC + "scaled_mesh_ocp.py", '''        if self.is_condensed:
            cons = self.split_constraints(cons)
            condensed_model''', '''        cons = self.split_constraints(cons)
        if self.is_condensed:
            condensed_model'''),
    (OC + "scaled_mesh_ocp.py", '''        else:
            cons = self.split_constraints(cons)
            interval_cons = cons["continuity"]
            stage_cons = cons["model_algebra"]
            stage_cons = np.reshape(
                stage_cons, (self.num_stages, self.model.num_implicit_res)
            )
''', '''        else:
            interval_cons = cons["continuity"]
            stage_cons = cons["model_algebra"].reshape(self.num_stages, -1)
'''),
    # models
    (M + "base.py", '''        children_residuals = []
        if not self.is_leaf():
            for submodel_name, model in self._submodels.items():
                children_residuals += [
                    submodel_name + "." + n for n in model.names.residuals
                ]
        return children_residuals
''', '''        return [
            f"{submodel_name}.{n}"
            for submodel_name, model in self._submodels.items()
            for n in model.names.residuals
        ]
'''),
    (M + "base.py", '''            combined_dict.update(
                {submodel_name + "." + n: v for n, v in submodel_return.outputs.items()}
            )
''', '''            for n, v in submodel_return.outputs.items():
                combined_dict[submodel_name + "." + n] = v
'''),
    (M + "base.py", '''        if name not in self.get_group_names(group):
            raise KeyError(
                f"{name} doesnot exist in group: {group}. Valid names are {self.get_group_names(group)} "
            )
        return self.get_group_names(group).index(name)
''', '''        group_names = self.get_group_names(group)
        if name in group_names:
            return group_names.index(name)
        raise KeyError(
            f"{name} doesnot exist in group: {group}. Valid names are {group_names} "
        )
'''),
    (M + "base.py", '''        # offset before the group
        offsets = np.cumsum([self.get_num_vars(g) for g in self._implicit_inputs])[:-1]
        offsets = dict(zip(self._implicit_inputs, np.insert(offsets, 0, 0)))

        return self.get_var_index(group=group, name=name) + offsets[group]
''', '''        # offset before the group
        before = self._implicit_inputs[: self._implicit_inputs.index(group)]
        offset = sum(self.get_num_vars(g) for g in before)

        return offset + self.get_var_index(group=group, name=name)
'''),
    (M + "base.py", '''        return lnp.array(list(kwargs[name] for name in self.get_group_names(group)))
''', '''        values = [kwargs[name] for name in self.get_group_names(group)]
        return lnp.array(values)
'''),
    (M + "base.py", '''        return np.ones(self.get_num_vars(group=group)) * val
''', '''        return np.full(self.get_num_vars(group), val, dtype=float)
'''),
    (M + "base.py", '''        kwargs["con_outputs"] = self.make_vector(
            "con_outputs", **self._extract_con_outputs(model_return.outputs)
        )

        kwargs["residuals"] = self.make_vector(
            "residuals", **self._extract_residuals(model_return.outputs)
        )

        return''', '''        outputs = model_return.outputs
        for group, extract in (
            ("residuals", self._extract_residuals),
            ("con_outputs", self._extract_con_outputs),
        ):
            kwargs[group] = self.make_vector(group, **extract(outputs))

        return'''),
    (M + "base.py", '''        idx_remove = np.hstack(
            [
                self.get_group_indices_in_flat("states_dot"),
                self.get_group_indices_in_flat("con_outputs"),
            ]
        )

        keep_rows = np.array([r not in idx_remove for r in rows])
        keep_cols = np.array([c not in idx_remove for c in cols])
        keep = keep_rows & keep_cols
''', '''        linear = np.concatenate(
            [self.get_group_indices_in_flat(g) for g in ("states_dot", "con_outputs")]
        )
        keep = np.logical_not(np.isin(rows, linear)) & ~np.isin(cols, linear)
'''),
    (M + "composition.py", '''        path_to_submodel = path.split(delimiter)

        model = self
        for name in path_to_submodel:
            if name not in model._submodels:
                raise KeyError(
                    f"{name} is not a valid submodel of {type(model)}. "
                    "Valid ones are {model.get_submodel_names()}"
                )
            model = model._submodels[name]

        return model
''', '''        name, _, rest = path.partition(delimiter)
        if name not in self._submodels:
            raise KeyError(
                f"{name} is not a valid submodel of {type(self)}. "
                f"Valid ones are {self.get_submodel_names()}"
            )
        submodel = self._submodels[name]
        return submodel.get_submodel(rest, delimiter) if rest else submodel
'''),
    (M + "composition.py", '''        param_tree = ParameterTree(data=self._params.copy())
        if not self.is_leaf():
            for n, m in self._submodels.items():
                param_tree.add_child(name=n, subtree=m.get_recursive_params())

        return param_tree''', '''        children = {n: m.get_recursive_params() for n, m in self._submodels.items()}
        return ParameterTree(dict(self._params), children=children)'''),
    (M + "tree_utils.py", '''        if path:
            child_names = path.split(delimiter)
            t = self
            for n in child_names:
                t = t.get_child(n)
            return t
        else:
            return self
''', '''        if not path:
            return self
        subtree = self
        for name in path.split(delimiter):
            subtree = subtree._children[name]
        return subtree
'''),
    (M + "tree_utils.py", '''        flat_dict = deepcopy(flat_dict)
        unflattened = cls.from_dict(tree_def)
        for k, v in flat_dict.items():
            unflattened._set_leaf(k, v)
''', '''        unflattened = cls.from_dict(tree_def)
        for k in flat_dict:
            unflattened._set_leaf(k, deepcopy(flat_dict[k]))
'''),
]


def apply(root, only=None):
    for f, old, new in EDITS:
        if only and only not in f:
            continue
        p = f"{root}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print("not applied (found", s.count(old), "times):", f, old.strip().split("\n")[0])
            continue
        open(p, "w").write(s.replace(old, new))


if __name__ == "__main__":
    apply(*sys.argv[1:])

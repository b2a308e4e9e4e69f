"""A second set of behaviour-preserving edits (see refactors.py): models, backends, configurations, simulations.

python3 tools/refactors_b.py DIR"""
import sys

OC, M, N, S = "lumos/optimal_control/", "lumos/models/", "lumos/numpy/", "lumos/simulations/"
EDITS = [
    # aero
    (M + "aero/aero.py", '''        coeff = gp(array_inputs, self._params["gp_points"], self._params["alpha"])

        outputs = self.make_dict(
            "outputs", **{n: coeff[idx] for idx, n in enumerate(self.names.outputs)}
        )

        return ModelReturn(outputs=outputs)
''', '''        params = self._params
        coeff = gp(x=array_inputs, gp_points=params["gp_points"], alpha=params["alpha"])
        return self._return_coefficients(coeff)

    def _return_coefficients(self, coeff):
        names = self.names.outputs
        values = {}
        for i in range(len(names)):
            values[names[i]] = coeff[i]
        return ModelReturn(outputs=self.make_dict("outputs", **values))
'''),
    (M + "aero/aero.py", '''        return [v for k, v in weights.items() if k.startswith(cls.weights_prefix)]
''', '''        layers = []
        for name in weights:
            if name.startswith(cls.weights_prefix):
                layers.append(weights[name])
        return layers
'''),
    (M + "aero/aero.py", '''        layers_dim = [cls.layer_dim] * cls.num_layers
        ins = [num_inputs] + layers_dim[:-1]
        outs = layers_dim
''', '''        outs = [cls.layer_dim for _ in range(cls.num_layers)]
        ins = [num_inputs, *outs[:-1]]
        layers_dim = outs
'''),
    (M + "aero/aero.py", '''        params = {"air_density": 1.225}
        params.update(weights_dict)
        return params
''', '''        return {"air_density": 1.225, **weights_dict}
'''),
    (M + "ml.py", '''    num_points = gp_points.shape[0]
    kxy = rbf_kernel(gp_points, lnp.vector_tile(x, num_points))
    return alpha @ kxy
''', '''    tiled = lnp.vector_tile(x, gp_points.shape[0])
    return alpha @ rbf_kernel(gp_points, tiled)
'''),
    (M + "ml.py", '''    y = x
    for w in weights:
        y = lnp.tanh(w @ y)

    return y
''', '''    out = x
    for layer in weights:
        activation = layer @ out
        out = lnp.tanh(activation)
    return out
'''),
    (M + "ml.py", '''    return lnp.exp(-sqeuclidean_distance(x, y))
''', '''    dist = sqeuclidean_distance(x, y)
    return lnp.exp(-dist)
'''),
    # drone
    (M + "drone_model.py", '''        x_dot_dot = inputs["f"] * lnp.sin(theta)
        z_dot_dot = inputs["f"] * lnp.cos(theta) - params["gravity"]
''', '''        thrust, omega = inputs["f"], inputs["omega"]
        sin_theta = lnp.sin(theta)
        x_dot_dot = thrust * sin_theta
        z_dot_dot = -params["gravity"] + thrust * lnp.cos(theta)
'''),
    (M + "drone_model.py", '''            "outputs", sin_theta=lnp.sin(theta), f_omega=inputs["omega"] * inputs["f"],
''', '''            "outputs", f_omega=thrust * omega, sin_theta=sin_theta,
'''),
    # kinematics
    (M + "kinematics.py", '''        ds_dt = (vx * lnp.cos(eta) - vy * lnp.sin(eta)) / (1 - n * curvature)
        dn_dt = vx * lnp.sin(eta) + vy * lnp.cos(eta)
        deta_dt = yaw_rate - curvature * ds_dt
''', '''        cos_eta, sin_eta = lnp.cos(eta), lnp.sin(eta)
        along = vx * cos_eta - vy * sin_eta
        dn_dt = vy * cos_eta + vx * sin_eta
        ds_dt = along / (1.0 - curvature * n)
        deta_dt = yaw_rate - ds_dt * curvature
'''),
    (M + "kinematics.py", '''            "states_dot", time=1 / ds_dt, n=dn_dt / ds_dt, eta=deta_dt / ds_dt,
''', '''            "states_dot", eta=deta_dt / ds_dt, n=dn_dt / ds_dt, time=1.0 / ds_dt,
'''),
    (M + "simple_vehicle_on_track.py", '''        kinematic_inputs = dict(**track_inputs, **inputs_from_vehicle)
''', '''        kinematic_inputs = {**inputs_from_vehicle, **track_inputs}
'''),
    (M + "simple_vehicle_on_track.py", '''        vehicle_inputs = {
            k: inputs[k] for k in self.get_submodel("vehicle").get_group_names("inputs")
        }

        # Pick out vehicle states
        vehicle_states = {
            k: states[k] for k in self.get_submodel("vehicle").get_group_names("states")
        }
''', '''        def pick(values, submodel, group):
            names = self.get_submodel(submodel).get_group_names(group)
            return {name: values[name] for name in names}

        vehicle_inputs = pick(inputs, "vehicle", "inputs")
        vehicle_states = pick(states, "vehicle", "states")
'''),
    # tires
    (M + "tires/perantoni.py", '''        interp_val = (Fz - Fz1) / (Fz2 - Fz1)
        mux_max = interp_val * (mux2 - mux1) + mux1
        muy_max = interp_val * (muy2 - muy1) + muy1
        kappa_max = interp_val * (kappa2 - kappa1) + kappa1
        alpha_max = interp_val * (alpha2 - alpha1) + alpha1
''', '''        ratio = (Fz - Fz1) / (Fz2 - Fz1)

        def at_load(first, second):
            return first + (second - first) * ratio

        mux_max, muy_max = at_load(mux1, mux2), at_load(muy1, muy2)
        kappa_max, alpha_max = at_load(kappa1, kappa2), at_load(alpha1, alpha2)
'''),
    (M + "tires/perantoni.py", '''        rho = lnp.sqrt(alpha_n**2 + kappa_n**2 + jitter)

        Sx = np.pi / 2 / lnp.arctan(Qx)
        Sy = np.pi / 2 / lnp.arctan(Qy)
''', '''        rho = lnp.sqrt(kappa_n * kappa_n + alpha_n * alpha_n + jitter)

        Sx = 0.5 * np.pi / lnp.arctan(Qx)
        Sy = 0.5 * np.pi / lnp.arctan(Qy)
'''),
    (M + "tires/perantoni.py", '''        Fx = mux * Fz * kappa_n / rho
        Fy = -muy * Fz * alpha_n / rho
''', '''        Fx = Fz * mux * (kappa_n / rho)
        Fy = -(Fz * muy * (alpha_n / rho))
'''),
    (M + "tires/utils.py", '''                name, val, *_ = re.split("[=$]", line.replace(" ", ""))
                try:
                    params[name] = float(val)
                except ValueError:
                    logger.debug(f"{name} is not a numeric value and is discarded.")
''', '''                parts = re.split("[=$]", line.replace(" ", ""))
                name = parts[0]
                try:
                    value = float(parts[1])
                except ValueError:
                    logger.debug(f"{name} is not a numeric value and is discarded.")
                    continue
                params[name] = value
'''),
    (M + "tires/utils.py", '''        tir_data = f.readlines()

        for line in tir_data:
''', '''        for line in f:
'''),
    (M + "tires/pacejka.py", '''        Bx_kappax = Bx * kappax
        Fx0 = (
            Dx
            * lnp.sin(
                Cx * lnp.arctan(Bx_kappax - Ex * (Bx_kappax - lnp.arctan(Bx_kappax)))
            )
            + SVx
        )  # (4.E9)
''', '''        Fx0 = SVx + Dx * self._magic_sine(Bx * kappax, Cx, Ex)  # (4.E9)
'''),
    (M + "tires/pacejka.py", '''    def _calculate_Fx(self, kappa, starVar, incrVar, Fx0):
''', '''    @staticmethod
    def _magic_angle(slip, shape, curvature):
        return shape * lnp.arctan(slip - curvature * (slip - lnp.arctan(slip)))

    @classmethod
    def _magic_sine(cls, slip, shape, curvature):
        return lnp.sin(cls._magic_angle(slip, shape, curvature))

    def _calculate_Fx(self, kappa, starVar, incrVar, Fx0):
'''),
    (M + "tires/pacejka.py", '''        Bxa_SHxa = Bxa * SHxa
        Gxa0 = lnp.cos(
            Cxa * lnp.arctan(Bxa_SHxa - Exa * (Bxa_SHxa - lnp.arctan(Bxa_SHxa)))
        )  # (4.E52)
''', '''        Gxa0 = lnp.cos(self._magic_angle(Bxa * SHxa, Cxa, Exa))  # (4.E52)
'''),
    (M + "tires/pacejka.py", '''        dfz = (Fz - Fz0_prime) / Fz0_prime  # [Eqn (4.E2a) Page 177 - Book]
''', '''        dfz = Fz / Fz0_prime - 1.0  # [Eqn (4.E2a) Page 177 - Book]
'''),
    (M + "tires/pacejka.py", '''            GSum=lnp.sqrt(Gyk**2 + Gxa**2),
''', '''            GSum=lnp.sqrt(Gxa * Gxa + Gyk * Gyk),
'''),
    # tracks
    (M + "tracks.py", '''    dx = np.diff(x)
    deltas = (y[:-1] + y[1:]) / 2 * dx
    return np.cumsum(np.insert(deltas, 0, 0.0))
''', '''    areas = 0.5 * (y[1:] + y[:-1]) * np.diff(x)
    return np.concatenate([[0.0], np.cumsum(areas)])
'''),
    (M + "tracks.py", '''    ds = np.sqrt(np.diff(x) ** 2 + np.diff(y) ** 2)
    s = np.cumsum(np.insert(ds, 0, 0.0))
''', '''    ds = np.hypot(np.diff(x), np.diff(y))
    s = np.insert(np.cumsum(ds), 0, 0.0)
'''),
    (M + "tracks.py", '''    curvature = (dx * d2y - d2x * dy) / (dx * dx + dy * dy) ** 1.5
''', '''    cross = dx * d2y - dy * d2x
    speed = dx ** 2 + dy ** 2
    curvature = cross / speed ** 1.5
'''),
    (M + "tracks.py", '''        self._track_data = {
            "s": s,
''', '''        self._track_data = {
            # Offset distance to always start at 0
            "s": s - s[0],
'''),
    (M + "tracks.py", '''        # Offset distance to always start at 0
        self._track_data["s"] = self._track_data["s"] - self._track_data["s"][0]
''', ''''''),
    (M + "tracks.py", '''        """Return the curvature of the track at given distance"""
        return np.interp(s, self._track_data["s"], self._track_data["curvature"])
''', '''        """Return the curvature of the track at given distance"""
        return self._interpolate("curvature", s)

    def _interpolate(self, channel, s):
        data = self._track_data
        return np.interp(s, data["s"], data[channel])
'''),
    (M + "tracks.py", '''        return np.interp(s, self._track_data["s"], self._track_data["heading"])
''', '''        return self._interpolate("heading", s)
'''),
    (M + "tracks.py", '''        x, y, heading = curvilinear_to_cartesian(s, curvature, heading0=heading0)
        return RaceTrack(
            x=x,
            y=y,
            s=s,
            curvature=curvature,
            heading=heading,
            left_distance=left_distance,
            right_distance=right_distance,
        )
''', '''        x, y, heading = curvilinear_to_cartesian(s, curvature, 0, 0, heading0)
        return RaceTrack(x, y, s, curvature, heading, left_distance, right_distance)
'''),
    # vehicle
    (M + "vehicles/simple_vehicle.py", '''        drive_torque_rl = (drive_power + delta_torque * wheel_speed["rr"]) / (
            wheel_speed["rl"] + wheel_speed["rr"]
        )
''', '''        left_speed, right_speed = wheel_speed["rl"], wheel_speed["rr"]
        drive_torque_rl = (delta_torque * right_speed + drive_power) / (
            left_speed + right_speed
        )
'''),
    (M + "vehicles/simple_vehicle.py", '''        brake_torque = {
            "fl": total_brake_torque * brake_balance * 0.5,
            "fr": total_brake_torque * brake_balance * 0.5,
            "rl": total_brake_torque * (1 - brake_balance) * 0.5,
            "rr": total_brake_torque * (1 - brake_balance) * 0.5,
        }
''', '''        front_brake = total_brake_torque * brake_balance
        rear_brake = total_brake_torque - front_brake
        brake_torque = {c: front_brake / 2 for c in ("fl", "fr")}
        brake_torque.update({c: rear_brake / 2 for c in ("rl", "rr")})
'''),
    (M + "vehicles/simple_vehicle.py", '''        Fz_total = vehicle_mass * gravity + aero_coeff["Cz"] * (
            0.5 * air_density * (vx ** 2 + vy ** 2)
        )
''', '''        dynamic_pressure = 0.5 * air_density * (vx ** 2 + vy ** 2)
        Fz_total = vehicle_mass * gravity + dynamic_pressure * aero_coeff["Cz"]
'''),
    (M + "vehicles/simple_vehicle.py", '''        drag = lnp.array(
            [-aero_coeff["Cx"] * (0.5 * air_density * (vx ** 2 + vy ** 2)), 0, 0]
        )

        # Sum up all the forces
        total_force_on_body = reduce(add, tire_force_in_body_coordinate.values())
        total_force_on_body += drag
        total_moment_on_body = reduce(add, tire_moment_in_body_coordinate.values())
''', '''        drag = lnp.array([-dynamic_pressure * aero_coeff["Cx"], 0, 0])

        # Sum up all the forces
        total_force_on_body = drag
        for force in tire_force_in_body_coordinate.values():
            total_force_on_body = total_force_on_body + force
        first, *others = tire_moment_in_body_coordinate.values()
        total_moment_on_body = reduce(add, others, first)
'''),
    (M + "vehicles/simple_vehicle.py", '''        wheel_load = {
            "fl": 0.5 * weight_distribution_front * Fz_total
            + lateral_transfer_front
            + longitudinal_transfer,
            "fr": 0.5 * weight_distribution_front * Fz_total
            - lateral_transfer_front
            + longitudinal_transfer,
            "rl": 0.5 * (1 - weight_distribution_front) * Fz_total
            + lateral_transfer_rear
            - longitudinal_transfer,
            "rr": 0.5 * (1 - weight_distribution_front) * Fz_total
            - lateral_transfer_rear
            - longitudinal_transfer,
        }
''', '''        front_load = 0.5 * weight_distribution_front * Fz_total + longitudinal_transfer
        rear_load = (
            0.5 * (1 - weight_distribution_front) * Fz_total - longitudinal_transfer
        )
        wheel_load = {
            "fl": front_load + lateral_transfer_front,
            "fr": front_load - lateral_transfer_front,
            "rl": rear_load + lateral_transfer_rear,
            "rr": rear_load - lateral_transfer_rear,
        }
'''),
    (M + "vehicles/simple_vehicle.py", '''            kappa = -(1 - rolling_radius * wheel_speed[c] / vx)
''', '''            kappa = rolling_radius * wheel_speed[c] / vx - 1
'''),
    (M + "vehicles/simple_vehicle.py", '''            wheel_speed_fl=wheel_speed_dot["fl"],
            wheel_speed_fr=wheel_speed_dot["fr"],
            wheel_speed_rl=wheel_speed_dot["rl"],
            wheel_speed_rr=wheel_speed_dot["rr"],
''', '''            **{f"wheel_speed_{c}": v for c, v in wheel_speed_dot.items()},
'''),
    # numpy
    (N + "__init__.py", '''    global __BACKEND
    if backend in __BACKEND_MAP:
        __BACKEND = backend
    else:
        logger.warn(
            f"{backend} is not a valid backend. Staying with {__BACKEND} backend"
        )
''', '''    global __BACKEND
    if backend not in __BACKEND_MAP:
        logger.warn(
            f"{backend} is not a valid backend. Staying with {__BACKEND} backend"
        )
        return
    __BACKEND = backend
'''),
    (N + "__init__.py", '''    return getattr(__BACKEND_MAP[__BACKEND], name)
''', '''    module = __BACKEND_MAP[get_backend()]
    return getattr(module, name)
'''),
    (N + "utils.py", '''        self._original_backends.append(lnp.get_backend())
        lnp.set_backend(self._target_backend)
''', '''        previous = lnp.get_backend()
        lnp.set_backend(self._target_backend)
        self._original_backends.append(previous)
'''),
    (N + "utils.py", '''    if lnp.get_backend() == "casadi":
        return casadi.vertcat(*arrays)
    else:
        return lnp.hstack(arrays)
''', '''    if lnp.get_backend() != "casadi":
        return lnp.hstack(arrays)
    return casadi.vertcat(*arrays)
'''),
    (N + "utils.py", '''        split_indices = [0, *split_indices, array.size()[0]]
        return casadi.vertsplit(array, split_indices)
''', '''        num_rows = array.shape[0]
        offsets = [0] + list(split_indices) + [num_rows]
        return casadi.vertsplit(array, offsets)
'''),
    (N + "utils.py", '''        out_array = []
        for idx in range(batch_size):
            sample_args = [
                a if map_axis is None else a[idx]
                for (a, map_axis) in zip(args, full_in_axes)
            ]
            sample_out = fn(*sample_args)
            out_array.append(sample_out)
''', '''        def call_sample(idx):
            return fn(
                *[
                    a[idx] if axis is not None else a
                    for a, axis in zip(args, full_in_axes)
                ]
            )

        out_array = [call_sample(idx) for idx in range(batch_size)]
'''),
    (N + "utils.py", '''        args = [
            np.tile(a, (batch, 1)) if map_axis is None else a
            for (a, map_axis) in zip(args, full_in_axes)
        ]

        # Casadi by default uses column vector, and hence maps both the inputs and ouputs
        # in row dimension, so we need to transpose both
        args = [a.T for a in args]
        outputs = fmapped.raw_mapped(*args)
''', '''        columns = []
        for a, map_axis in zip(args, full_in_axes):
            if map_axis is None:
                a = np.tile(a, (batch, 1))
            # Casadi by default uses column vector, and hence maps both the inputs and
            # ouputs in row dimension, so we need to transpose both
            columns.append(a.T)
        outputs = fmapped.raw_mapped(*columns)
'''),
    (N + "casadi_numpy/array.py", '''    for a in arrays:
        if not (a.shape[1] == 1):
            return False

    return True
''', '''    return all(a.shape[1] == 1 for a in arrays)
'''),
    (N + "casadi_numpy/array.py", '''    if not (_check_1d_arrays(arrays)):
        raise ValueError("To use row_stack, all arrays must be 1d casadi arrays.")
    return _cas.horzcat(*arrays).T
''', '''    if not _check_1d_arrays(arrays):
        raise ValueError("To use row_stack, all arrays must be 1d casadi arrays.")
    rows = [a.T for a in arrays]
    return _cas.vertcat(*rows)
'''),
    (N + "casadi_numpy/array.py", '''    if not is_casadi_type(arrays, recursive=True):
        return _onp.concatenate(arrays, axis=axis)

    else:
        if axis == 0:
            return _cas.vertcat(*arrays)
        elif axis == 1:
            return _cas.horzcat(*arrays)
        else:
            raise ValueError(
                "CasADi-backend arrays can only be 1D or 2D, so `axis` must be 0 or 1."
            )
''', '''    if not is_casadi_type(arrays, recursive=True):
        return _onp.concatenate(arrays, axis=axis)

    if axis not in (0, 1):
        raise ValueError(
            "CasADi-backend arrays can only be 1D or 2D, so `axis` must be 0 or 1."
        )
    join = _cas.vertcat if axis == 0 else _cas.horzcat
    return join(*arrays)
'''),
    # collocation
    (OC + "collocation.py", '''    weights = np.zeros_like(support)
    weights[index] = 1

    # NOTE''', '''    weights = np.array([1.0 if k == index else 0.0 for k in range(len(support))])

    # NOTE'''),
    (OC + "collocation.py", '''    lagrange_basis = make_lagrange_basis(support)
    polynomials = [
        lagrange_polynomial.deriv() for lagrange_polynomial in lagrange_basis
    ]

    return np.array([p(evaluation_points) for p in polynomials]).T
''', '''    columns = []
    for polynomial in make_lagrange_basis(support):
        columns.append(polynomial.deriv()(evaluation_points))
    return np.stack(columns, axis=1)
'''),
    (OC + "collocation.py", '''    return np.array([p(evaluation_points) - p(support[0]) for p in polynomials]).T
''', '''    start = support[0]
    return np.transpose([p(evaluation_points) - p(start) for p in polynomials])
'''),
    (OC + "collocation.py", '''        coefficients = [0] * (num_points - 1) + [1, 1]
        characteristic_polynomial = Legendre(coefficients)

        # solve and flip
        collocation_points = -characteristic_polynomial.roots()[::-1]
''', '''        coefficients = np.zeros(num_points + 1)
        coefficients[-2:] = 1.0
        roots = Legendre(coefficients).roots()

        # flip
        collocation_points = -np.flip(roots)
'''),
    # config
    (OC + "config.py", '''        if isinstance(self.transcription, str):
            self.transcription = (self.transcription,)
''', '''        if type(self.transcription) is str:
            self.transcription = tuple([self.transcription])
'''),
    (OC + "config.py", '''        if self.bounds and isinstance(self.bounds[0], dict):
            self.bounds = tuple(BoundConfig(**d) for d in self.bounds)

        if self.scales and isinstance(self.scales[0], dict):
            self.scales = tuple(ScaleConfig(**d) for d in self.scales)

        if self.boundary_conditions and isinstance(self.boundary_conditions[0], dict):
            self.boundary_conditions = tuple(
                BoundaryConditionConfig(**d) for d in self.boundary_conditions
            )
''', '''        def restore(items, config_class):
            if len(items) > 0 and isinstance(items[0], dict):
                return tuple([config_class(**item) for item in items])
            return items

        self.scales = restore(self.scales, ScaleConfig)
        self.bounds = restore(self.bounds, BoundConfig)
        self.boundary_conditions = restore(
            self.boundary_conditions, BoundaryConditionConfig
        )
'''),
    (OC + "fixed_mesh_ocp.py", '''        grad = np.zeros_like(x)
        grad[idx_end] = 1
        grad[idx_start] = -1
        return grad
''', '''        grad = np.zeros(x.shape)
        grad[idx_start] -= 1.0
        grad[idx_end] += 1.0
        return grad
'''),
    (OC + "fixed_mesh_ocp.py", '''            objective=lambda x: self._time_objective(x),
            gradient=lambda x: self._time_gradient(x),
''', '''            objective=self._time_objective,
            gradient=self._time_gradient,
'''),
    # model solver
    (OC + "model_solver.py", '''        states_dot_scales = np.array(
            [self._var_scales["states"][n] for n in self._model.names.states]
        )
        con_output_scales = np.array(
            [self._var_scales["con_outputs"][n] for n in self._model.names.con_outputs]
        )
''', '''        names = self._model.names

        def scales_of(group):
            scales = self._var_scales[group]
            return np.array([scales[n] for n in getattr(names, group)])

        states_dot_scales = scales_of("states")
        con_output_scales = scales_of("con_outputs")
'''),
    (OC + "model_solver.py", '''        for _, o in self._objectives.items():
            o.set_input_scales(self._dec_var_scales)

        for _, c in self._constraints.items():
            c.set_input_scales(self._dec_var_scales)
''', '''        components = [*self._constraints.values(), *self._objectives.values()]
        for component in components:
            component.set_input_scales(self._dec_var_scales)
'''),
    (OC + "model_solver.py", '''        var_names = []
        for group in self.input_groups:
            var_names += [
                self._construct_name(group, n)
                for n in getattr(self._model.names, group)
            ]
        return var_names
''', '''        return [
            self._construct_name(group, n)
            for group in self.input_groups
            for n in getattr(self._model.names, group)
        ]
'''),
    (OC + "model_solver.py", '''        if isinstance(bounds, tuple):
            lb, ub = bounds
        else:
            lb = ub = bounds
''', '''        lb, ub = bounds if isinstance(bounds, tuple) else (bounds, bounds)
'''),
    # simulations
    (S + "laptime_simulation.py", '''        vec = np.zeros(self.model.num_inputs)
        for n, w in weights.items():
            vec[self.dec_var_operator.get_var_index_in_group("inputs", n)] = w

        # make it a matrix
        return np.tile(vec, (self.num_stages, 1))
''', '''        matrix = np.zeros((self.num_stages, self.model.num_inputs))
        for name in weights:
            column = self.dec_var_operator.get_var_index_in_group("inputs", name)
            matrix[:, column] = weights[name]
        return matrix
'''),
    (S + "laptime_simulation.py", '''        structured_vars = self.dec_var_operator.unflatten_var(x)
        return (structured_vars.inputs ** 2 * weight_matrix).sum() / self.num_stages
''', '''        inputs = self.dec_var_operator.unflatten_var(x).inputs
        return np.sum(weight_matrix * inputs * inputs) / self.num_stages
'''),
    (S + "laptime_simulation.py", '''        structured_grads = {g: v * 0 for g, v in structured_vars._asdict().items()}
        structured_grads["inputs"] = inputs_grad
''', '''        structured_grads = {
            g: inputs_grad if g == "inputs" else 0 * v
            for g, v in structured_vars._asdict().items()
        }
'''),
    (S + "laptime_simulation.py", '''        curvature = self._track.curvature_at(self.distance_mesh)
        heading = self._track.heading_at(self.distance_mesh)
        left_distance = self._track.left_distance_at(self.distance_mesh)
        right_distance = self._track.right_distance_at(self.distance_mesh)
''', '''        track, mesh = self._track, self.distance_mesh
        left_distance = track.left_distance_at(mesh)
        right_distance = track.right_distance_at(mesh)
        heading = track.heading_at(mesh)
        curvature = track.curvature_at(mesh)
'''),
    (S + "laptime_simulation.py", '''        dt = np.diff(self.distance_mesh) / vx
        time = np.cumsum(np.insert(dt, 0, 0.0))
''', '''        mesh = self.distance_mesh
        time = (mesh - mesh[0]) / vx
'''),
    (S + "laptime_simulation.py", '''        for name in ["states.time", "inputs.track_heading"]:
            if name not in self.non_cyclic_vars:
                logger.warning(
                    f"{name} must be non-cyclic, automatically adding it to the list."
                )
                # A new list: the given one belongs to the caller
                self.non_cyclic_vars = [*self.non_cyclic_vars, name]
''', '''        required = ["states.time", "inputs.track_heading"]
        missing = [name for name in required if name not in self.non_cyclic_vars]
        for name in missing:
            logger.warning(
                f"{name} must be non-cyclic, automatically adding it to the list."
            )
        # A new list: the given one belongs to the caller
        self.non_cyclic_vars = list(self.non_cyclic_vars) + missing
'''),
    (S + "drone_simulation.py", '''        inputs = np.zeros((self.num_stages, self.model.num_inputs)) + np.array(
            [10.0, 0]
        )
''', '''        inputs = np.tile(np.array([10.0, 0.0]), (self.num_stages, 1))
'''),
    (S + "drone_simulation.py", '''        states = (
            np.tile(self.model.make_const_vector(group="states"), (self.num_stages, 1),)
            + 0.1
        )
''', '''        at_stage = self.model.make_const_vector(group="states") + 0.1
        states = np.tile(at_stage, (self.num_stages, 1))
'''),
]


if __name__ == "__main__":
    root = sys.argv[1]
    for f, old, new in EDITS:
        p = f"{root}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print("not applied (found", s.count(old), "times):", f, old.strip().split("\n")[0])
            continue
        open(p, "w").write(s.replace(old, new))

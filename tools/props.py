"""Property definitions: `python3 tools/props.py` writes properties.jsonl and MANIFEST.json.

A property is claimed when it has a contract file (contracts/<id>.py) or, for the bounded ones, a
runtime-contract file (concrete/<id>.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OC = "lumos/optimal_control/"
P = []


def prop(id, title, statement, over, text, tests, files, mech, note="", level="proof", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  note=note, level=level, na=na))


prop("C01", "Decision vector layout is a bijection",
     "For every set of variable names, number of intervals, stages per interval and choice of variable groups and "
     "global variables, each (group, variable, stage) and each global variable owns exactly one position of the "
     "decision vector, with positions 0..n-1 all used, stage-major and groups in the given order. Every index query "
     "(by variable, by group, negative stage, all stages) and every accessor (pack, unpack, stage array, interval "
     "tensor) agrees with that one layout, and packing and unpacking are inverse to each other. A stage outside the "
     "range is rejected with a ValueError.",
     ["inputs", "configurations"], "all name lists, group orders, numbers of intervals/stages, all vectors",
     "tests fix two or three small sizes and one group order",
     [OC + "utils.py"], [("DecVarOperator", OC + "utils.py")])

prop("C02", "Continuity constraints equal the transcription equations, exact derivatives",
     "For every interval i, state j and collocation row l, the continuity constraint of an optimal control problem is "
     "sum_k A[l,k] x_k - h_i sum_k B[l,k] xdot_k, with h_i the length of the interval on the scaled mesh. The "
     "Jacobian entries the problem reports for them (with their row/column indices) are the exact partial "
     "derivatives, including the one by a free mesh scale, and the Hessian entries for a multiplier vector are the "
     "exact second derivatives, each off-diagonal pair once.",
     ["inputs", "configurations"], "all points, numbers of intervals/stages/states, interval meshes, group orders, "
     "any scheme matrices A and B, fixed and free mesh scale, all multipliers",
     "tests compare with autodiff at a few random points of one small model",
     [OC + "scaled_mesh_ocp.py", OC + "fixed_mesh_ocp.py"],
     [("continuity constraints, Jacobian and Hessian", OC + "scaled_mesh_ocp.py"),
      ("fixed-mesh variant", OC + "fixed_mesh_ocp.py")])

prop("C03", "NLP function scaling: consistent values, Jacobian, gradient, Hessian",
     "A constraint component with input scales s and constraint scales c evaluates g(s*x)/c, and its Jacobian and "
     "multiplier-weighted Hessian are exactly the derivatives of that scaled function; an objective component "
     "evaluates f(s*x) with the gradient and Hessian of the scaled function. This holds in any order and for any "
     "number of scale updates, and linear components keep it with and without a cached Jacobian.",
     ["inputs", "histories"], "all points, scales, multipliers, sparsity structures and scale-setting histories",
     "tests check one scale vector on one function",
     [OC + "nlp.py"], [("BaseConstraints", OC + "nlp.py"), ("BaseObjective", OC + "nlp.py"),
                       ("LinearConstraints", OC + "nlp.py")])

prop("C04", "Composite problem is exactly the sum/stack of its components",
     "At every moment of any history of adding and removing components, the problem's objective and gradient are the "
     "sums over the objective components, its constraints and Jacobian (values and row/column indices) are the stacked "
     "components in insertion order, and its Hessian is the upper triangle of objective-factor times the objective "
     "Hessians plus the constraint Hessians weighted by each component's own multipliers. Number and order of "
     "Hessian/Jacobian values match the reported structure, splitting a constraint vector gives each component its own "
     "rows, and duplicate names or mismatched sizes are rejected leaving the problem unchanged.",
     ["inputs", "histories"], "all component sets, sizes, structures, points and add/remove histories",
     "tests build one fixed pair of components",
     [OC + "nlp.py"], [("CompositeProblem", OC + "nlp.py")])

prop("C05", "Stage-wise stacking equals a per-stage loop",
     "Stacking a unit problem over all stages gives, for each stage, the unit problem's values, Jacobian and Hessian "
     "at that stage's variables, mesh point (normalized point times mesh scale), parameters and multipliers, placed "
     "at that stage's rows and columns of the full problem and nowhere else. Window extraction over a sequence returns "
     "exactly the overlapping windows and rejects lengths that do not divide evenly.",
     ["inputs", "configurations"], "all stage counts, unit sizes, sparsity structures, scales and points",
     "tests use one kernel and a few sizes",
     [OC + "convolution.py", OC + "utils.py", OC + "nlp.py"],
     [("ConvConstraints", OC + "convolution.py"), ("batch_conv1d, create_offset_structure, stack_and_increment",
                                                   OC + "utils.py")])

prop("C06", "Transcription schemes integrate polynomials exactly",
     "Every transcription scheme's matrices satisfy A p(t) = h B p'(t) on its stage points (t from 0 to 1, times the "
     "interval length h) for every polynomial p up to the scheme's degree (1 for forward Euler, 2 for trapezoidal, the "
     "number of collocation points for LGR and one more for its integral form), with as many rows as stages minus one; "
     "LGR points are increasing in [0, 1] and include both interval ends. Lagrange differentiation and integration "
     "matrices (from the first support point) are exact on the whole polynomial space of their support points, and the "
     "collocation points of each family (LG, LGR, LGL) are increasing, distinct points of [-1, 1] whose interpolatory "
     "quadrature has the family's degree (2n-1, 2n-2, 2n-3). An unknown scheme name is rejected.",
     ["inputs", "configurations"], "all polynomials, interval lengths; all support/evaluation points; stage counts",
     "tests integrate two or three sample functions",
     [OC + "transcription.py", OC + "collocation.py"],
     [("transcription classes", OC + "transcription.py"), ("Lagrange matrices", OC + "collocation.py")])

prop("C07", "Normalized mesh and interval lengths",
     "The normalized mesh of a problem starts at 0, ends at 1, has one point per stage, is increasing, places every "
     "interval's stage points at the scheme's relative positions between that interval's end points (uniform when no "
     "points are given), and the mesh for a scale is the normalized mesh times that scale. Interval point vectors of "
     "the wrong size, not spanning [0, 1] or not strictly increasing are rejected with a ValueError.",
     ["inputs", "configurations"], "all interval point vectors, numbers of intervals and stage positions, scales",
     "tests use a few meshes", [OC + "scaled_mesh_ocp.py", OC + "fixed_mesh_ocp.py"],
     [("set_normalized_mesh and mesh accessors", OC + "scaled_mesh_ocp.py")])

prop("C08", "Bounds, boundary conditions and scales reach exactly the right variables",
     "After any sequence of bound and boundary-condition updates, each decision variable's bounds are those of the "
     "last boundary condition on it, else of the last bound update on its variable (scalar or per stage), else "
     "infinite; contradictory or wrongly sized bounds are rejected. Setting scales gives every listed variable its "
     "scale at all stages and 1 elsewhere, scales continuity and state-equation rows by the state scale and "
     "constrained-output rows by their scale, and every component uses the same variable scales; all constraints are "
     "equalities to zero.",
     ["inputs", "histories", "configurations"], "all update histories, bounds, scales, sizes",
     "tests check a handful of configured variables", [OC + "scaled_mesh_ocp.py", OC + "config.py"],
     [("update_bounds/update_boundary_conditions/set_scales", OC + "scaled_mesh_ocp.py"),
      ("BoundConfig", OC + "config.py")])

prop("C09", "Cyclic constraints tie first and last stage of exactly the cyclic variables",
     "A cyclic problem adds, for every state and input not excluded, exactly one constraint (value at first stage "
     "minus value at last stage) with the exact Jacobian and an empty Hessian, as long as at least one variable is "
     "not excluded; excluding an unknown variable raises a ValueError.",
     ["inputs", "configurations"], "all sizes, exclusion lists, points", "tests use one model and one exclusion",
     [OC + "scaled_mesh_ocp.py"], [("cyclic constraints", OC + "scaled_mesh_ocp.py")])

prop("C10", "Condensed problem is the full problem with state derivatives eliminated",
     "With condensing enabled, the problem's constraints are the full problem's continuity constraints with the state "
     "derivatives replaced by the model's, followed by the remaining algebraic constraints stage by stage; Jacobian "
     "and multiplier-weighted Hessian (fixed and free mesh scale) are the exact derivatives of that function and do "
     "not depend on the state-derivative variables, which are fixed to zero (with a free mesh scale: for models that "
     "do not depend on the mesh explicitly). Building a condensed problem does not alter the caller's configuration.",
     ["inputs", "configurations"], "all points, multipliers, schemes, sizes, group orders",
     "tests compare one configuration per scheme at a random point", [OC + "scaled_mesh_ocp.py"],
     [("condensed constraints, Jacobian, Hessian", OC + "scaled_mesh_ocp.py")])

prop("C11", "Casadi array functions agree with numpy",
     "For every operation the backend-agnostic array namespace offers for symbolic arrays, evaluating the symbolic "
     "result at any numeric point gives what numpy gives for the same arguments (values and shape), for every shape, "
     "axis and argument combination the operation accepts, with a column vector (n, 1) standing for a 1-D array; "
     "other arguments are rejected, and where plain numeric arguments are accepted the result is numpy's.",
     ["inputs", "programs"], "all operations, argument shapes, axes and values",
     "tests call each operation once, mostly only checking that it runs",
     ["lumos/numpy/casadi_numpy/"], [("casadi_numpy functions", "lumos/numpy/casadi_numpy/")])

prop("C12", "Parameter trees: lossless flattening, precise get/set",
     "Flattening a nested parameter structure to a vector (or to flat names) and restoring it returns the same "
     "structure and values for every nesting and every leaf shape; writing one parameter by its path changes that "
     "parameter and nothing else, and reading it returns the written value. Paths that do not exist are rejected.",
     ["inputs", "histories"], "all nested structures, leaf shapes, paths, delimiters and update histories",
     "tests use a few hand-written dictionaries", ["lumos/models/tree_utils.py"],
     [("ParameterTree and path helpers", "lumos/models/tree_utils.py")])

prop("C13", "Model input/output vectors and implicit residuals follow the declared names",
     "For any declared names, building a vector from named values and reading it back by name or by index agree, and "
     "order follows the declaration. A state-space model's implicit residual is (forward state derivative minus given "
     "state derivative), (forward outputs minus given constrained outputs in their order), then the model residuals, "
     "and its derivative functions are the exact derivatives of that residual for every backend.",
     ["inputs", "configurations"], "all name lists, constrained-output subsets, inputs",
     "tests use a few toy models", ["lumos/models/base.py", "lumos/models/composition.py"],
     [("Model/StateSpaceModel", "lumos/models/base.py"), ("composition", "lumos/models/composition.py")])

prop("C14", "A composed model is exactly its configuration, and parameters reach every submodel",
     "A model built from a configuration has exactly the submodels the configuration names, at every level (each of "
     "the class registered under the configured name), and its parameters are the given tree's or each class's "
     "defaults. Setting a parameter tree and reading it back returns it, every model holding exactly the parameters "
     "of its own node; later changes of either side do not affect the other. Submodels are found by their path for "
     "any delimiter; unknown paths, unregistered names, names registered twice and configurations for another class "
     "are rejected.",
     ["inputs", "configurations", "histories"], "all configurations, names, parameter trees, delimiters, sequences of "
     "parameter updates", "tests build one vehicle and set one parameter",
     ["lumos/models/composition.py"], [("ModelMaker, CompositeModel parameters", "lumos/models/composition.py")])

prop("C15", "Track curvature, heading and widths are consistent in arc length",
     "For every track, curvature, heading and left/right distances queried at a distance are the linear interpolation "
     "of the track's samples at that arc length (from zero at the first sample to the total distance). A track made "
     "from a centre line has the cumulated segment lengths as arc length, the signed curvature (positive to the left) "
     "of the line by second-order finite differences in arc length, and a heading that starts along the line and "
     "accumulates the curvature by the trapezoidal rule, so moving or turning the line leaves curvature and lengths "
     "unchanged and mirroring it flips the curvature. A track made from curvature accumulates heading and then "
     "position by the same rule. Widths are kept on their side.",
     ["inputs"], "all centre lines, widths, query distances", "tests use one track file and a circle",
     ["lumos/models/tracks.py"], [("RaceTrack", "lumos/models/tracks.py")])

prop("C16", "Track-frame kinematics invert the Cartesian motion",
     "For every velocity, yaw rate, curvature and lateral offset (away from the singular centre of curvature and zero "
     "forward progress), the track-frame kinematics are the exact change of variables from planar rigid-body motion: "
     "progress, lateral offset and heading rates, divided by the progress rate when expressed per distance.",
     ["inputs"], "all kinematic states", "tests sample straight and circular motion",
     ["lumos/models/kinematics.py", "lumos/models/simple_vehicle_on_track.py"],
     [("TrackPosition2D", "lumos/models/kinematics.py")])

prop("C17", "Vehicle dynamics obey the laws of planar rigid-body motion",
     "For every state, input and parameter set the vehicle's accelerations and yaw acceleration equal the "
     "sum of tire, aerodynamic and resistance forces and their moments divided by mass and yaw inertia in the rotating "
     "frame, vertical tire loads sum to weight plus aerodynamic load with transfers proportional to the accelerations, "
     "tire slips follow from the contact patch velocities, wheel accelerations follow from the balance of drive (power "
     "and differential), brake and tire torques, and a mirrored state gives the mirrored response.",
     ["inputs"], "all states, inputs and parameters", "tests run a few sample states",
     ["lumos/models/vehicles/simple_vehicle.py", "lumos/models/aero/aero.py"],
     [("SimpleVehicle", "lumos/models/vehicles/simple_vehicle.py"), ("aero", "lumos/models/aero/aero.py")])

prop("C18", "Tire models match the published Magic Formula",
     "For every slip, load, camber and parameter set, the tire forces and moment equal the published formula of the "
     "model (the steady-state MF 5.2 equations for the Pacejka tire, Perantoni and Limebeer's load-dependent peak "
     "model for the other), zero lateral force at zero slip for symmetric parameters, and odd symmetry of the lateral "
     "force under mirroring of slip.",
     ["inputs"], "all slips, loads, parameters", "tests compare a table of sample values",
     ["lumos/models/tires/"], [("MF52, PerantoniTire", "lumos/models/tires/")])

prop("C19", "Aerodynamic maps compute their declared function of the model inputs",
     "For every input and parameter set, and every number of samples, layers and units, the constant, Gaussian-process "
     "(weighted sum of squared-exponential kernels at the sample points) and neural-network (tanh layers in order) "
     "aerodynamic models return their formula's value, each coefficient under its own name, from the inputs in declared "
     "order, on every numerical backend; the default parameters have the shapes the formula needs.",
     ["inputs", "configurations"], "all inputs, parameters, sample counts and layer sizes",
     "tests only check that a vehicle with these models runs",
     ["lumos/models/aero/aero.py", "lumos/models/ml.py"],
     [("ConstAero, GPAero, MLPAero", "lumos/models/aero/aero.py"), ("gp, mlp", "lumos/models/ml.py")])

prop("C20", "Standalone model solve formulates the model equations",
     "The standalone model solver's decision vector is the model's implicit variables in order; its constraints are "
     "the model's implicit residual at mesh 0 with exact Jacobian and Hessian, scaled consistently after any sequence "
     "of scale updates; bounds and variable objectives act on exactly the named variable.",
     ["inputs", "histories"], "all models, points, scale and bound histories", "tests solve one or two models",
     [OC + "model_solver.py"], [("ModelSolver", OC + "model_solver.py")])

prop("C21", "Result logs record the unscaled solution",
     "The logged tables contain, per stage, the unscaled decision variables under their names, the model outputs at "
     "those variables, the constraint values in the right columns and the physical mesh (normalized mesh times the "
     "unscaled mesh scale), for every problem kind, scaling and logging frequency; with logging at every n-th iteration the "
     "combined table holds exactly those iterations and the last one.",
     ["inputs", "histories", "configurations"], "all scales, decision vectors, iteration histories",
     "tests check that files exist and a few columns", [OC + "scaled_mesh_ocp.py"],
     [("logging", OC + "scaled_mesh_ocp.py")])

prop("C22", "Built-in objectives have exact derivatives",
     "The time objective is the free mesh scale, or on a fixed mesh the difference of the time state between last and "
     "first stage, and the input penalty is the stage average of weighted squared inputs; gradient and Hessian (values "
     "and structure) are the exact derivatives at every point.",
     ["inputs", "configurations"], "all sizes, weights, points", "tests check one size against autodiff",
     [OC + "scaled_mesh_ocp.py", OC + "fixed_mesh_ocp.py", "lumos/simulations/laptime_simulation.py"],
     [("time objective", OC + "fixed_mesh_ocp.py"), ("input penalty", "lumos/simulations/laptime_simulation.py")])

prop("C23", "Solving hands the scaled problem to the solver and returns its unscaled answer",
     "Solving hands the solver the problem's own callbacks with variable bounds and initial guess (the given one, else "
     "the problem's) divided by the variable scales and constraint bounds as they are, with user options overriding "
     "the defaults and starting multipliers passed on; what is returned is the solver's point times the scales with "
     "the solver's information; a failed status or refused option raises; a problem without objectives is solved with "
     "the zero objective.",
     ["inputs", "configurations"], "all problems, scales, guesses, options, multipliers and solver answers",
     "tests check the status of a few solves",
     [OC + "nlp.py", OC + "scaled_mesh_ocp.py"],
     [("solve", OC + "nlp.py"), ("get_init_guess, callbacks", OC + "scaled_mesh_ocp.py")])

prop("C24", "The numerical backend is scoped",
     "Running code under a chosen backend uses that backend for exactly the dynamic extent of the block or call and "
     "restores the one active on entry afterwards, for any nesting, reuse and exceptions; selecting an unknown backend "
     "leaves the active one unchanged.",
     ["histories", "inputs"], "all nestings, reuse histories, exceptions", "tests use one or two nestings",
     ["lumos/numpy/__init__.py", "lumos/numpy/utils.py"], [("use_backend/set_backend", "lumos/numpy/")])

prop("C25", "The lap time problem is the problem of its track",
     "Setting a track, at construction or later, makes the lap time problem the one of that track: the mesh is the "
     "normalized mesh times the track length; track curvature and heading are pinned at every stage to the track's "
     "values at that stage's distance, and the lateral position is bounded by minus the right and plus the left "
     "distance there; boundary conditions and all other bounds stay as they were. A problem whose track was changed "
     "any number of times equals one constructed with the last track. The initial guess carries the track's "
     "curvature and heading, a time consistent with its constant speed, and the model's own derivatives and outputs.",
     ["inputs", "configurations", "histories"], "all tracks, meshes, configurations and sequences of track changes",
     "tests solve one or two tracks", ["lumos/simulations/laptime_simulation.py", OC + "fixed_mesh_ocp.py"],
     [("set_track, initial guess", "lumos/simulations/laptime_simulation.py")])

prop("C26", "Configurations are validated, complete and survive conversion to a dictionary",
     "A configuration keeps every setting it is given, converts to a plain dictionary, and is restored from it with "
     "the same values and types, sharing nothing changeable with it; a problem made from the restored configuration is "
     "the same problem. Bounds are accepted exactly if both are scalars or both 1-d arrays of one size with the lower "
     "nowhere above the upper. A lap time configuration needs a track and always makes time and track heading "
     "non-cyclic. Making a configuration leaves the given arguments as they were, and configurations do not share "
     "state. Every problem class makes configurations of its own class.",
     ["inputs", "configurations"], "all settings, values, list lengths",
     "tests convert one configuration and compare a few fields",
     [OC + "config.py", "lumos/simulations/laptime_simulation.py", "lumos/simulations/drone_simulation.py"],
     [("SimConfig, BoundConfig, to_dict", OC + "config.py"), ("LTCConfig", "lumos/simulations/laptime_simulation.py")])

prop("C27", "Mapping a function over a batch equals a loop over the batch",
     "Mapping a function over batched arguments returns, for every batch element, the function's value at that "
     "element of the mapped arguments and the whole of the unmapped ones, stacked in order, for the plain and the "
     "casadi mapping and any choice of mapped arguments.",
     ["inputs", "programs"], "all functions, batch sizes, argument maps", "tests map one function",
     ["lumos/numpy/utils.py"], [("lmap, cmap", "lumos/numpy/utils.py")])


prop("C28", "A changed model parameter reaches every evaluation",
     "After any sequence of parameter changes of a problem, its constraints, Jacobian, Hessian, initial guess and "
     "logged tables are those of a problem made from a model with the resulting parameters, for every backend, mesh "
     "kind, condensed or full; only the named parameter changes, at any depth of the model, and an unknown parameter "
     "is refused and changes nothing. Other problems and parameter trees the caller holds are unaffected, and "
     "evaluating a problem leaves the model with its own parameters.",
     ["inputs", "histories", "configurations"], "all parameters, values, sequences of changes and evaluations",
     "tests change one parameter once and look at the constraints",
     [OC + "scaled_mesh_ocp.py", OC + "convolution.py", "lumos/models/base.py"],
     [("modify_model_param", OC + "scaled_mesh_ocp.py"), ("set_params", OC + "convolution.py"),
      ("batched forward", "lumos/models/base.py")])

prop("C29", "The drone problem is planar flight under one thrust",
     "For every state, input, gravity and array backend the drone model is x'' = f sin(theta), z'' = f cos(theta) - g, "
     "theta' = omega, with outputs sin(theta) and f omega. The drone problem is posed on that model with the given "
     "parameters; by default it flies rest to rest from the origin to height 5 with one full turn, within the default "
     "bounds. Its initial guess has, at every stage, the model's own derivatives and outputs, and its total time is "
     "the mesh scale.",
     ["inputs", "configurations"], "all states, inputs, parameters, meshes, schemes and decision vectors",
     "tests solve the default problem once", ["lumos/models/drone_model.py", "lumos/simulations/drone_simulation.py"],
     [("DroneModel", "lumos/models/drone_model.py"), ("DroneSimulation", "lumos/simulations/drone_simulation.py")])

COMMON = ("Contracts on the real functions, every obligation discharged for all inputs and sizes by symbolic execution "
          "of /repo's current source (ring/sum normal form, endpoint elimination, z3). Trusted: the lumver engine, its "
          "numpy contracts, exact arithmetic. A seeded runtime-contract run of the same specification supplies failing "
          "inputs.")
NOTES = {
    "C06": "numpy's Legendre polynomials are taken by contract; the numerical conditioning of the points (root finding "
           "in floating point) is only checked by the bounded run.",
    "C10": "scipy.sparse matrices and the two components being condensed (C02, C05) are taken by contract.",
    "C11": "casadi's matrices and elementary functions are taken by contract (a dense matrix of symbolic shape, elementwise "
           "arithmetic, documented reductions and concatenation); lists of arrays up to three; all shapes, shifts, axes and "
           "positions are symbolic; mmax, all, any, solve and the interpolant are opaque functions; "
           "finite-difference coefficients and the geometric spacings only by the bounded run.",
    "C12": "Tree shapes up to depth 5 from a fixed list, with arbitrary names and values; leaves of any shape up to rank two. "
           "Other trees by the bounded run.",
    "C13": "The wiring of the derivative functions for the casadi, jax and custom backends and for exported C code is under "
           "contract; the differentiation and compilation done inside casadi, jax and the C compiler is taken by contract, "
           "and compared with exact derivatives by the bounded run.",
    "C14": "Finite tree shapes plus one level with any number of submodels; names and values are arbitrary.",
    "C15": "numpy.interp and loading of track files are taken by contract.",
    "C19": "The network is proved up to three layers with any number of units, more layers by the bounded run.",
    "C21": "pandas tables are taken by contract; the iteration history is proved through one generic step and its end.",
    "C23": "cyipopt's Problem is taken by its contract; the timing log lines are only covered by the bounded run.",
    "C25": "The track (C15) and the vehicle model (C13) are taken by contract.",
    "C26": "The round trip is proved for lists up to two entries with arbitrary values; longer lists by the bounded run.",
    "C24": "Scopes already active any number of times are covered by their invariant; scope objects that keep their state in "
           "another form are covered up to a depth of three.",
}


def main():
    checks, na, lines = [], [], []
    for p in P:
        lines.append(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant="The property quantifies over " + p["text"] + "; " + p["tests"] + ".",
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))))
        proof = os.path.exists(f"{HERE}/contracts/{p['id']}.py")
        conc = os.path.exists(f"{HERE}/concrete/{p['id']}.py")
        if p["na"] or not (proof or conc):
            na.append(dict(property=p["id"], reason=p["na"] or "no check has been built for it yet"))
            continue
        level = p["level"] if proof else "exploration"
        note = COMMON + (" " + NOTES[p["id"]] if p["id"] in NOTES else "")
        if not proof:
            note = p["note"] or "Bounded: runtime contracts on seeded inputs, not counted as proved."
        tech = ("contract-based deductive verification (symbolic execution of the real source, all sizes and inputs)"
                if proof else "runtime contract checking (bounded stand-in)")
        checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick",
                           thorough_cmd=f"python3 check.py {p['id']} --tier thorough", technique=tech, level=level,
                           level_note=note))
    open(f"{HERE}/properties.jsonl", "w").write("\n".join(lines) + "\n")
    with open(f"{HERE}/MANIFEST.json", "w") as f:
        json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), f, indent=1)
    print([c["property"] for c in checks], "n/a:", [n["property"] for n in na])


if __name__ == "__main__":
    main()

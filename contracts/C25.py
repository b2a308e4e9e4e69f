"""C25: the lap time problem is the problem of its track."""
import types

from contracts.ocp import *
from lumver import symnp
from lumver.seq import NON_NAMES
from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig
import lumos.simulations.laptime_simulation as lap

assume_note("RaceTrack by its contract (C15): curvature, heading and the nonnegative widths are functions of the distance, "
            "the total distance is positive; loading the file gives the track of that file.")
E = lambda t, *k: lift(elem(t, *k))
NON_NAMES.update(("n", "time", "steer", "track_curvature", "track_heading"))     # the other names of the lists


class Track:
    """Contract of a track: opaque functions of the distance."""

    def __init__(self, tag):
        self.tag = tag
        self.total_distance = sym("L_" + tag)
        CTX.assume(ge0(self.total_distance))
        CTX.assume(bnot(eq(self.total_distance, const(0))))
        for what in ("left", "right"):
            CTX.array_bounds(f"{what}_{tag}", lambda *i: (const(0), None))

    def fn(self, what, s):
        return ufn(f"{what}_{self.tag}", lift(s))

    def at(self, what, s):
        return symnp.elementwise(lambda e: self.fn(what, e), [s]) if isinstance(s, T) else self.fn(what, s)

    def curvature_at(self, s):
        return self.at("curvature", s)

    def heading_at(self, s):
        return self.at("heading", s)

    def left_distance_at(self, s):
        return self.at("left", s)

    def right_distance_at(self, s):
        return self.at("right", s)


def tracks(*tags):
    made = {t: Track(t) for t in tags}
    return made, types.SimpleNamespace(from_tum_csv=lambda f: made[f])


def lap_problem(kinds=(2,), points=False, **cfg):
    return world(True, kinds[CTX.choose(len(kinds))], orders=False, points=points, cls=lap.LaptimeSimulation,
                 special=dict(states="n", inputs=("track_curvature", "track_heading")), **cfg)


def with_tracks(w, made, stub, *order):
    keep = lap.RaceTrack
    lap.RaceTrack = stub
    try:
        for f in order:
            w.ocp.set_track(f)
    finally:
        lap.RaceTrack = keep


def stage(w):
    return CTX.index("ps", w.S)


def probe(w):
    """A generic stage variable: (group, k, stage)."""
    g = ("states", "inputs", "states_dot", "con_outputs")[CTX.choose(4)]
    return g, idx("pk_" + g, w.n[g]), stage(w)


def track_bounds(w, t, g, k, d):
    """(condition, lower, upper) of the variables a track bounds; d: the distance of the stage."""
    if g == "inputs":
        for name, what in (("track_curvature", "curvature"), ("track_heading", "heading")):
            if bool(eq(k, w.special["inputs"][name])):
                return t.fn(what, d), t.fn(what, d)
    if g == "states" and bool(eq(k, w.special["states"])):
        return -t.fn("right", d), t.fn("left", d)


def check(w, t, conditions=()):
    CTX.require_eq("mesh scale", lift(w.ocp._get_mesh_scale(vec("x", w.num))), t.total_distance)
    g, k, s = probe(w)
    d = E(w.ocp._flat_normalized_mesh, s) * t.total_distance
    m = w.ocp.get_mesh()
    shape_is("mesh", m, w.S)
    CTX.require_eq("mesh", E(m, s), d)
    p = s * w.V + w.off[g] + k
    want = None
    for cg, ck, cs, cv in reversed(conditions):
        if cg == g and bool(eq(ck, k)) and bool(eq(cs, s)):
            want = cv, cv
            break
    want = want or track_bounds(w, t, g, k, d) or (read("lb0", [p]), read("ub0", [p]))
    shape_is("lower bounds", w.ocp.lb, w.num)
    shape_is("upper bounds", w.ocp.ub, w.num)
    CTX.require_eq(f"lower bound ({g})", E(w.ocp.lb, p), want[0])
    CTX.require_eq(f"upper bound ({g})", E(w.ocp.ub, p), want[1])


def any_bounds(w):
    w.ocp.lb, w.ocp.ub = vec("lb0", w.num), vec("ub0", w.num)


@goal("setting a track: mesh, pinned curvature and heading, lateral bounds; everything else as before", timeout=600)
def one_track():
    w = lap_problem(points=CTX.choose(2) == 1)
    any_bounds(w)
    made, stub = tracks("A")
    with_tracks(w, made, stub, "A")
    check(w, made["A"])


@goal("setting another track replaces the first one entirely", timeout=600)
def two_tracks():
    w = lap_problem((2,))
    any_bounds(w)
    made, stub = tracks("A", "B")
    with_tracks(w, made, stub, "A", "B")
    check(w, made["B"])


@goal("boundary conditions hold through a change of track", timeout=600)
def conditions():
    w = lap_problem((2,))
    any_bounds(w)
    g, k = [("states", w.special["states"]), ("inputs", w.special["inputs"]["track_curvature"])][CTX.choose(2)]
    s = CTX.index("cs", w.S)
    v = sym("v")
    made, stub = tracks("A")
    w.ocp.update_boundary_conditions((BoundaryConditionConfig(s, g, w.model.names._asdict()[g].get(k), v),))
    with_tracks(w, made, stub, "A")
    check(w, made["A"], [(g, k, s, v)])


class Bare(lap.LaptimeSimulation):
    """The lap time problem without its constraints, objectives and scales, which the initial guess does not use."""

    def nothing(self, *a):
        pass

    # the normalized mesh is that of C07
    _flat_normalized_mesh = property(lambda self: vec("mesh0", self.num_stages))
    _build_objective = _build_continuity_cons = _build_model_algebra = set_scales = set_cons = nothing


VEHICLE = [list(lap.SimpleVehicleOnTrack.get_direct_group_names(g)) for g in ("states", "inputs")]


@goal("initial guess: on the track, at a constant speed, derivatives and outputs those of the model", timeout=600)
def guess():
    names_ = [x if CTX.choose(2) == 0 else x[::-1] for x in VEHICLE]
    w = world(True, [2, "M"][CTX.choose(2)], orders=False, cls=Bare,
              special=dict(zip(("states", "inputs"), names_)))
    made, stub = tracks("A")
    t = made["A"]
    with_tracks(w, made, stub, "A")

    def make_vector(group, **kw):
        lst = names_[("states", "inputs").index(group)]
        CTX.require(f"a value for every one of the {group}", set(kw) == set(lst))
        return symnp.array([kw[n] for n in lst])

    def forward(*a):
        w.forward = a
        return types.SimpleNamespace(states_dot=arr("F", w.S, w.n["states"]), con_outputs=arr("CO", w.S, w.n["con_outputs"]))
    w.model.make_vector = make_vector
    w.model.get_var_index = lambda group, name: names_[("states", "inputs").index(group)].index(name)
    w.model.batched_forward = forward
    w.ocp._params = par = object()
    x = w.ocp.get_init_guess()
    shape_is("initial guess", x, w.num)
    c = CTX.choose(3)
    s = idx("s", w.S - 1)
    dist = lambda s: E(w.ocp._flat_normalized_mesh, s) * t.total_distance
    at = lambda g, name, r=None: E(x, (s if r is None else r) * w.V + w.off[g] + w.special[g][name])
    if c != 1:
        s = s + CTX.choose(2)
    d = dist(s)
    if c == 0:
        CTX.require_eq("track curvature", at("inputs", "track_curvature"), t.fn("curvature", d))
        CTX.require_eq("track heading", at("inputs", "track_heading"), t.fn("heading", d))
        CTX.require_eq("wheel speed", at("states", "wheel_speed_fl"), at("states", "wheel_speed_rr"))
    elif c == 1:
        CTX.require_eq("time at the start", at("states", "time", const(0)), const(0))
        CTX.require_eq("constant speed", at("states", "vx"), at("states", "vx", s + 1))
        CTX.require_eq("time at the speed of the guess",
                       (at("states", "time", s + 1) - at("states", "time")) * at("states", "vx"), dist(s + 1) - d)
    else:
        st, inp, mesh, p = w.forward
        CTX.require("parameters of the problem", p is par)
        shape_is("mesh of the model call", mesh, w.S)
        CTX.require_eq("mesh of the model call", E(mesh, s), d)
        g = ("states", "inputs", "states_dot", "con_outputs")[CTX.choose(4)]
        k = idx("k_" + g, w.n[g])
        got = E(x, s * w.V + w.off[g] + k)
        if g in ("states", "inputs"):
            a = st if g == "states" else inp
            shape_is(f"{g} of the model call", a, w.S, w.n[g])
            CTX.require_eq(f"{g} of the model call", E(a, s, k), got)
        else:
            CTX.require_eq(g, got, read("F" if g == "states_dot" else "CO", [s, k]))


@canary("lateral bounds with the widths exchanged must be refuted")
def swapped():
    w = lap_problem()
    made, stub = tracks("A")
    t = made["A"]
    with_tracks(w, made, stub, "A")
    s = stage(w)
    d = E(w.ocp._flat_normalized_mesh, s) * t.total_distance
    CTX.require_eq("lower", E(w.ocp.lb, s * w.V + w.off["states"] + w.special["states"]), -t.fn("left", d))

"""Runtime contract: configurations are validated, complete and survive conversion to a dictionary and back."""
import copy
import dataclasses
import os
import shutil
import tempfile

import numpy as np

from concrete.base import case, require, close, equal, raises, Violation
from concrete import toy
from lumos.optimal_control.config import (BoundConfig, BoundaryConditionConfig, LoggingConfig, ScaleConfig, SimConfig)
from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP
from lumos.simulations.drone_simulation import DroneSimulationConfig, DroneSimulation
from lumos.simulations.laptime_simulation import LTCConfig, LaptimeSimulation

GROUPS = ("states", "inputs", "states_dot", "con_outputs", "global")


def name(rng):
    return ["x", "time", "mesh_scale", "a.b", "vehicle.slip_ratio_fl", "n", ""][int(rng.integers(7))]


def num(rng):
    v = [float(rng.normal()), float(np.exp(rng.normal() * 5)), 0.0, -0.0, np.inf, -np.inf, int(rng.integers(-5, 5)),
         np.float64(rng.normal()), np.int64(rng.integers(9)), np.float32(1.5)]
    return v[int(rng.integers(len(v)))]


def values(rng):
    if rng.integers(2):
        a, b = num(rng), num(rng)
        return (a, b) if a <= b else (b, a)
    lo = rng.normal(size=int(rng.integers(1, 6)))
    hi = lo + rng.uniform(0, 1, len(lo)) * rng.integers(0, 2, len(lo))
    if rng.integers(4) == 0:
        lo[0], hi[-1] = -np.inf, np.inf
    return lo, hi


def many(rng, f):
    return tuple(f(rng) for _ in range(int(rng.integers(0, 5))))


def group(rng):
    return GROUPS[int(rng.integers(5))]


FIELDS = dict(
    num_intervals=lambda rng: int(rng.integers(1, 200)),
    interval_points=lambda rng: None if rng.integers(2) else np.linspace(0, 1, int(rng.integers(2, 9))),
    transcription=lambda rng: ["LGR", "Trapezoidal", ("LGR",), ("LGR", {"num_stages": int(rng.integers(2, 6))}),
                               ("Custom", {"a": [1, 2], "b": {"c": 3}}), ["LGR"],
                               ["LGR", {"num_stages": int(rng.integers(2, 6))}]][int(rng.integers(7))],
    is_cyclic=lambda rng: bool(rng.integers(2)),
    non_cyclic_vars=lambda rng: [f"states.{name(rng)}{k}" for k in range(int(rng.integers(0, 4)))],
    is_condensed=lambda rng: bool(rng.integers(2)),
    backend=lambda rng: ["jax", "casadi", "custom"][int(rng.integers(3))],
    hessian_approximation=lambda rng: ["exact", "limited-memory"][int(rng.integers(2))],
    boundary_conditions=lambda rng: many(rng, lambda r: BoundaryConditionConfig(
        int(r.integers(-3, 3)), group(r), name(r), num(r))),
    bounds=lambda rng: many(rng, lambda r: BoundConfig(group(r), name(r), values(r))),
    scales=lambda rng: many(rng, lambda r: ScaleConfig(group(r), name(r), num(r))),
    con_output_names=lambda rng: many(rng, name),
    logging_config=lambda rng: None if rng.integers(2) else LoggingConfig(
        **{k: v for k, v in dict(sim_name=name(rng) + "s", results_dir="some/dir", log_every_nth_iter=int(
            rng.integers(0, 9))).items() if rng.integers(2)}))


def random_config(rng):
    cls = [SimConfig, LTCConfig, DroneSimulationConfig][int(rng.integers(3))]
    kw = {k: f(rng) for k, f in FIELDS.items() if rng.integers(4)}
    if cls is LTCConfig:
        kw["track"] = name(rng) + ".csv"
    return cls, kw


def same(what, a, b):
    """Same values, same types."""
    require(type(a) is type(b), f"{what}: {type(a).__name__} and {type(b).__name__}")
    if dataclasses.is_dataclass(a):
        for f in dataclasses.fields(a):
            same(f"{what}.{f.name}", getattr(a, f.name), getattr(b, f.name))
    elif isinstance(a, dict):
        require(list(a) == list(b), f"{what}: keys {list(a)} and {list(b)}")
        for k in a:
            same(f"{what}.{k}", a[k], b[k])
    elif isinstance(a, (list, tuple)):
        require(len(a) == len(b), f"{what}: {len(a)} and {len(b)} entries")
        for k, (x, y) in enumerate(zip(a, b)):
            same(f"{what}[{k}]", x, y)
    elif isinstance(a, np.ndarray):
        equal(a, b, what)
    else:
        require(a == b and np.signbit(a) == np.signbit(b) if isinstance(a, float) else a == b, f"{what}: {a!r} and {b!r}")


def spoil(d):
    """Change everything changeable below d."""
    if isinstance(d, dict):
        for v in d.values():
            spoil(v)
        d["spoiled"] = 1
    elif isinstance(d, list):
        for v in d:
            spoil(v)
        d.append("spoiled")
    elif isinstance(d, tuple):
        for v in d:
            spoil(v)
    elif isinstance(d, np.ndarray):
        d *= 2
        d += 1


def plain(what, d):
    require(not dataclasses.is_dataclass(d), f"{what} is not a plain value: {d!r}")
    if isinstance(d, dict):
        for k, v in d.items():
            plain(f"{what}.{k}", v)
    elif isinstance(d, (list, tuple)):
        for k, v in enumerate(d):
            plain(f"{what}[{k}]", v)


@case(quick=400)
def round_trip(rng):
    cls, kw = random_config(rng)
    given = copy.deepcopy(kw)
    c = cls(**kw)
    same("the given settings", kw, given)
    for k, v in given.items():
        if k == "transcription" and isinstance(v, str):
            v = (v,)
        got = getattr(c, k)
        if k == "transcription":          # a list or a tuple is the same setting
            v, got = tuple(v), tuple(got)
        if k == "non_cyclic_vars" and cls is LTCConfig:
            got = got[:len(v)]
        same(k, v, got)
    before = copy.deepcopy(c)
    d = c.to_dict()
    plain("to_dict()", d)
    require(list(d) == [f.name for f in dataclasses.fields(cls)], "keys of the dictionary")
    keep = copy.deepcopy(d)
    again = cls(**d)
    same("config from its dictionary", c, again)
    same("the dictionary", d, keep)
    same("dictionary again", d, again.to_dict())
    spoil(d)
    same("config after its dictionary was changed", before, c)
    return dict(cls=cls.__name__, keys=len(kw))


@case(quick=300)
def bounds(rng):
    def side(n):
        k = int(rng.integers(7))
        if k <= 1:
            return num(rng)
        if k == 2:
            return rng.normal(size=n)
        if k == 3:
            return rng.normal(size=int(rng.integers(0, 4)))
        if k == 4:
            return rng.normal(size=(n, 1)) if rng.integers(2) else np.array(rng.normal())
        if k == 5:
            return [rng.normal() for _ in range(n)]
        return np.nan if rng.integers(2) else np.full(n, np.nan)
    n = int(rng.integers(1, 4))
    lo, hi = side(n), side(n)
    if rng.integers(3) == 0:
        lo, hi = values(rng)
        if rng.integers(2):
            if isinstance(lo, np.ndarray):
                k = int(rng.integers(len(lo)))
                lo[k] = hi[k] + rng.choice([1e-9, 1.0])
            else:
                lo, hi = hi, lo
    if np.isscalar(lo) and np.isscalar(hi):
        ok = bool(lo <= hi)
    else:
        ok = (isinstance(lo, np.ndarray) and isinstance(hi, np.ndarray) and lo.ndim == hi.ndim == 1
              and len(lo) == len(hi) and bool((lo <= hi).all()))
    try:
        b = BoundConfig("states", "x", (lo, hi))
    except (AssertionError, TypeError, ValueError) as e:
        require(not ok, f"bounds {lo!r}, {hi!r} refused: {e}")
    else:
        require(ok, f"bounds {lo!r}, {hi!r} accepted")
        same("values", (lo, hi), tuple(b.values))
    return dict(ok=ok, kinds=f"{type(lo).__name__} {type(hi).__name__}")


@case(quick=100)
def lap(rng):
    must = ["states.time", "inputs.track_heading"]
    v = [f"states.{k}" for k in "abc"[:int(rng.integers(4))]] + [m for m in must if rng.integers(2)]
    rng.shuffle(v)
    v = [str(x) for x in v]
    given = list(v)
    c = LTCConfig(track="t.csv", non_cyclic_vars=given)
    equal(given, v, "the given list of variables was changed")
    got = list(c.non_cyclic_vars)
    require([x for x in got if x in v] == v, f"given variables {v}, got {got}")
    require(sorted(got) == sorted(set(v) | set(must)), f"non-cyclic variables {got} for {v}")
    other = LTCConfig(track="u.csv")
    require(sorted(other.non_cyclic_vars) == sorted(must), f"another configuration: {other.non_cyclic_vars}")
    raises(ValueError, lambda: LTCConfig(non_cyclic_vars=given), "a lap time configuration without a track is accepted")
    raises(ValueError, lambda: LTCConfig(track=None), "a lap time configuration without a track is accepted")
    return dict(n=len(v))


@case(quick=60)
def same_problem(rng):
    """A problem made from the restored configuration is the same problem."""
    w = toy.world(rng, condensed=bool(rng.integers(2)),
                  states=[("time",), ("q", "time"), ("time", "r")][int(rng.integers(3))])
    st = list(w.model.get_group_names("states"))
    kw = {f.name: getattr(w.cfg, f.name) for f in dataclasses.fields(SimConfig)}
    pick = lambda: st[int(rng.integers(len(st)))]
    arr = lambda: (lambda lo: (lo, lo + 1))(rng.normal(size=w.S))
    kw["bounds"] = tuple(BoundConfig("states", pick(), arr() if rng.integers(2) else (-1.0, 2.0)) for _ in range(2))
    kw["scales"] = (ScaleConfig("states", pick(), 3.0),)
    kw["boundary_conditions"] = (BoundaryConditionConfig(int(rng.integers(-w.S, w.S)), "states", pick(), 0.5),)
    root = tempfile.mkdtemp(prefix="lumver_cfg_")
    try:
        kw["logging_config"] = None if rng.integers(2) else LoggingConfig(
            sim_name=f"s{rng.integers(1 << 60)}", results_dir=root, log_every_nth_iter=int(rng.integers(3)))
        c = SimConfig(**kw)
        r = SimConfig(**c.to_dict())
        a, b = ([FixedMeshOCP(w.model, q, mesh_scale=w.scale) if w.fixed else ScaledMeshOCP(w.model, q) for q in (c, r)])
        x = rng.normal(size=w.num)
        for f in ("lb", "ub", "cl", "cu"):
            equal(getattr(a, f), getattr(b, f), f)
        for f in ("constraints", "jacobian", "objective", "gradient"):
            equal(getattr(a, f)(x), getattr(b, f)(x), f)
        if kw["logging_config"] is not None:
            require(os.path.isdir(b.logging_dir) == os.path.isdir(a.logging_dir), "logging directory")
            require(os.path.abspath(b.logging_dir).startswith(root), "logging directory")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return dict(N=w.N, tr=str(w.tr), log=kw["logging_config"] is not None)


@case(quick=40)
def makers(rng):
    """Every problem class makes configurations of its own class, from the given settings."""
    for ocp, cls, extra in ((ScaledMeshOCP, SimConfig, {}), (FixedMeshOCP, SimConfig, {}),
                            (LaptimeSimulation, LTCConfig, {"track": "t.csv"}), (DroneSimulation, DroneSimulationConfig, {})):
        kw = {k: f(rng) for k, f in FIELDS.items() if rng.integers(2)}
        given = copy.deepcopy(kw)
        c = ocp.get_sim_config(**kw, **extra)
        require(type(c) is cls, f"{ocp.__name__} makes a {type(c).__name__}")
        same("the settings", c, cls(**given, **extra))
    return dict(k=len(kw))


DOCUMENTED = dict(num_intervals=99, interval_points=None, transcription=("Trapezoidal",), is_cyclic=False, non_cyclic_vars=[],
                  is_condensed=False, backend="jax", hessian_approximation="exact", boundary_conditions=(), bounds=(),
                  scales=(), con_output_names=(), logging_config=None)


@case(quick=40)
def defaults(rng):
    """A setting that is not given has its documented default, whatever configurations were made before."""
    for cls, extra in ((SimConfig, {}), (LTCConfig, {"track": "t.csv"}), (DroneSimulationConfig, {})):
        kw = {k: f(rng) for k, f in FIELDS.items() if rng.integers(2)}
        c = cls(**kw, **extra)
        for k, v in DOCUMENTED.items():
            if k in kw or cls is LTCConfig and k in ("is_cyclic", "non_cyclic_vars", "bounds", "scales", "con_output_names",
                                                     "boundary_conditions") or \
                    cls is DroneSimulationConfig and k in ("bounds", "boundary_conditions", "con_output_names"):
                continue
            got = getattr(c, k)
            require(type(got) is type(v) and got == v, f"{k} not given: {got!r}, expected {v!r}")
        spoil({k: getattr(c, k) for k in ("non_cyclic_vars",) if k not in kw and cls is SimConfig})


@case(quick=20)
def without_configuration(rng):
    """A problem made without a configuration is the one of its class's default configuration."""
    w = toy.world(rng)
    N = int(rng.integers(1, 5))
    tr = w.tr

    @dataclasses.dataclass
    class Own(SimConfig):
        num_intervals: int = N
        transcription: object = tr
        backend: str = "custom"

    made = []
    for base in (ScaledMeshOCP, FixedMeshOCP):
        P = type("P", (base,), {"ConfigClass": Own})
        kw = {"mesh_scale": 2.0} if base is FixedMeshOCP else {}
        a, b = P(w.cls(), **kw), P(w.cls(), P.get_sim_config(), **kw)
        require(a.num_intervals == N and a.num_dec == b.num_dec and a.backend == "custom", "the class's configuration")
        x = rng.normal(size=a.num_dec)
        for f in ("constraints", "jacobian"):
            equal(getattr(a, f)(x), getattr(b, f)(x), f)
        made.append(a.num_dec)
    return dict(N=N, made=made)

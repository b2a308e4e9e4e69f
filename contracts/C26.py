"""C26: configurations are validated, complete and survive conversion to a dictionary and back."""
import dataclasses

from contracts.common import *
from lumver import symnp, rt
from lumver.seq import NON_NAMES
from lumos.optimal_control.config import (BoundConfig, BoundaryConditionConfig, LoggingConfig, ScaleConfig, SimConfig)
from lumos.simulations.laptime_simulation import LTCConfig
from lumos.simulations.drone_simulation import DroneSimulationConfig
import logging

logging.disable(logging.CRITICAL)
assume_note("dataclasses.asdict by its documentation: nested dataclasses, lists, tuples and dicts are converted, everything "
            "else is deep-copied.")
NON_NAMES.update(("states.time", "inputs.track_heading"))
E = lambda t, *k: lift(elem(t, *k))
CLASSES = [(SimConfig, {}), (LTCConfig, dict(track="the track")), (DroneSimulationConfig, {})]


class Value:
    """An arbitrary value nothing is known about."""

    def __init__(self, tag):
        self.tag = tag

    def __deepcopy__(self, memo):
        return Value(self.tag)

    def __eq__(self, o):
        return isinstance(o, Value) and o.tag == self.tag

    __hash__ = None

    def __bool__(self):
        raise Unsupported("truth of an arbitrary value")


def taken(name, g, n, v):
    b = must_accept(name, BAD, BoundConfig, g, n, v)
    CTX.require(name, b.group == g and b.name == n and b.values[0] is v[0] and b.values[1] is v[1])


BAD = (AssertionError, TypeError, ValueError)


@goal("bounds with the lower not above the upper are taken as they are")
def good_bounds():
    g, n = Value("group"), Value("name")
    if CTX.choose(2):
        lo, d = sym("lo"), sym("d")
        CTX.assume(ge0(d))
        taken("scalars", g, n, (lo, lo + d))
    else:
        S = CTX.size("S", 1)
        lo, d = vec("lo", S), vec("d", S)
        CTX.array_bounds("d", lambda *i: (const(0), None))
        taken("arrays", g, n, (lo, lo + d))


@goal("contradictory bounds and bounds of different kinds, ranks or sizes are refused")
def bad_bounds():
    g, n = "group", "name"
    c = CTX.choose(7)
    S = CTX.size("S", 1)
    v = vec("v", S)
    at = ()
    if c == 0:
        what, d = "scalars the wrong way round", sym("d")
        CTX.assume(ge0(d))
        CTX.assume(bnot(eq(d, const(0))))
        b = sym("lo") + d, sym("lo")
    elif c == 1:
        what, s = "arrays the wrong way round at some stage", CTX.index("s", S)
        d = read("v", [s]) - read("hi", [s])
        CTX.assume(ge0(d))
        CTX.assume(bnot(eq(d, const(0))))
        b, at = (v, vec("hi", S)), (s,)
    elif c == 2:
        what, b = "a number and an array", (sym("lo"), v)
    elif c == 3:
        what, b = "an array and a number", (v, sym("hi"))
    elif c == 4:
        what, b = "matrices", (arr("m", S, S), arr("m2", S, S))
    elif c == 5:
        d = CTX.size("d", 1)
        what, b = "arrays of different sizes", [(v, vec("w", S + d)), (vec("w", S + d), v)][CTX.choose(2)]
    else:
        what, b = "lists", ([sym("a")], [sym("b")])
    must_raise(what, BAD, BoundConfig, g, n, b, at=at)




def config(cls, extra):
    """An arbitrary configuration with up to two entries in its lists."""
    kw = dict(extra)
    for f in dataclasses.fields(SimConfig):
        kw[f.name] = Value(f.name)
    kw["transcription"] = ["LGR", ("LGR", {"num_stages": Value("M")}), (Value("scheme"),)][CTX.choose(3)]
    kw["interval_points"] = vec("points", CTX.size("points", 2)) if CTX.choose(2) else None
    kw["non_cyclic_vars"] = [Value("v0"), "states.x"][:CTX.choose(3)] if cls is SimConfig else ["states.time"]
    m = CTX.choose(3)
    lo, d = sym("lo"), sym("d")
    CTX.assume(ge0(d))
    S = CTX.size("S", 1)
    CTX.array_bounds("vd", lambda *i: (const(0), None))
    kw["bounds"] = (BoundConfig(Value("g0"), Value("n0"), (lo, lo + d)),
                    BoundConfig(Value("g1"), Value("n1"), (vec("vl", S), vec("vl", S) + vec("vd", S))))[:m]
    kw["scales"] = (ScaleConfig(Value("g2"), Value("n2"), sym("s0")), ScaleConfig(Value("g3"), Value("n3"), sym("s1")))[:m]
    kw["boundary_conditions"] = (BoundaryConditionConfig(Value("st"), Value("g4"), Value("n4"), sym("b0")),
                                 BoundaryConditionConfig(Value("s2"), Value("g5"), Value("n5"), (sym("b1"), sym("b2"))))[:m]
    kw["logging_config"] = LoggingConfig(Value("sim"), Value("dir"), Value("nth")) if CTX.choose(2) else None
    return kw


def same(what, a, b, deep=False):
    """a and b hold the same values in the same types; with deep, they share nothing that can be changed."""
    if isinstance(a, (P, SymStr)) or isinstance(b, (P, SymStr)):
        return CTX.require_eq(what, lift(a), lift(b)) if isinstance(a, P) and isinstance(b, P) else CTX.fail(what, "type")
    if isinstance(a, T) or isinstance(b, T):
        if not (isinstance(a, T) and isinstance(b, T) and len(a.spaces) == len(b.spaces) == 1):
            return CTX.fail(what, f"{type(a)} {type(b)}")
        shape_is(what, b, a.spaces[0].size())
        i = idx("i", a.spaces[0].size())
        return CTX.require_eq(what, E(a, i), E(b, i))
    if not CTX.require(what + ": type", type(a) is type(b) or isinstance(a, (list, dict)) and isinstance(b, type(a))):
        return
    if deep and isinstance(a, (list, dict)) or deep and dataclasses.is_dataclass(a):
        CTX.require(what + ": shared", a is not b)
    if dataclasses.is_dataclass(a):
        for f in dataclasses.fields(a):
            same(f"{what}.{f.name}", getattr(a, f.name), getattr(b, f.name), deep)
    elif isinstance(a, dict):
        CTX.require(what + ": keys", list(a) == list(b))
        for k in a:
            same(f"{what}[{k}]", a[k], b[k], deep)
    elif isinstance(a, (list, tuple)):
        CTX.require(what + ": length", len(a) == len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            same(f"{what}[{k}]", x, y, deep)
    else:
        CTX.require(what, a == b)


@goal("to a dictionary and back: the same configuration, sharing nothing that can change", timeout=600)
def round_trip():
    cls, extra = CLASSES[CTX.choose(3)]
    kw = config(cls, extra)
    c = cls(**kw)
    d = c.to_dict()
    CTX.require("a dictionary of the fields", set(d) == {f.name for f in dataclasses.fields(cls)})
    CTX.require("entries are plain", not any(dataclasses.is_dataclass(x) for v in d.values()
                                             for x in (v if isinstance(v, tuple) else (v,))))
    again = cls(**d)
    same("config", c, again, True)
    same("dictionary", d, again.to_dict())


@goal("every given setting is kept")
def kept():
    cls, extra = CLASSES[CTX.choose(3)]
    kw = config(cls, extra)
    c = cls(**kw)
    for n, v in kw.items():
        if n == "transcription":
            v = (v,) if isinstance(v, str) else v
        if n == "non_cyclic_vars" and cls is LTCConfig:
            continue
        got = getattr(c, n)
        CTX.require(n, got is v or isinstance(v, tuple) and got == v)


@goal("a lap time configuration makes time and heading non-cyclic, keeping the given variables and the given list")
def non_cyclic():
    a, b = CTX.size("a", 0), CTX.size("b", 0)
    mine = [["states.time"], ["inputs.track_heading"], ["states.time", "inputs.track_heading"], []][CTX.choose(4)]
    given = SList()
    given.segs = list(SymSeq(names("va", a).segs + [("lit", mine)] + names("vb", b).segs).segs)
    c = LTCConfig(track="the track", non_cyclic_vars=given)
    got = as_seq(c.non_cyclic_vars)
    n = a + b + len(mine)
    CTX.require_eq("the given list is as it was", as_seq(given).length(), n)
    CTX.require_eq("number of variables", got.length(), a + b + 2)
    for x in ("states.time", "inputs.track_heading"):
        CTX.require(x, x in got)
    k = idx("k", n)
    from lumver.seq import val_eq
    e = val_eq(got.get(k), as_seq(given).get(k))
    CTX.require("given variables in their order", e if isinstance(e, bool) else CTX.prove(e))


@goal("a lap time configuration needs a track")
def no_track():
    must_raise("no track", ValueError, LTCConfig)
    must_raise("no track", ValueError, LTCConfig, track=None)


DOCUMENTED = dict(num_intervals=99, interval_points=None, transcription=("Trapezoidal",), is_condensed=False, backend="jax",
                  hessian_approximation="exact", logging_config=None)
DOCUMENTED_PLAIN = dict(is_cyclic=False, non_cyclic_vars=[], boundary_conditions=(), bounds=(), scales=(),
                        con_output_names=())


@goal("settings not given have the documented defaults; configurations are independent of each other")
def defaults():
    k = CTX.choose(3)
    cls, extra = CLASSES[k]
    a, b = cls(**extra), cls(**extra)
    for n, v in {**DOCUMENTED, **(DOCUMENTED_PLAIN if cls is SimConfig else {})}.items():
        CTX.require(f"default of {n}", type(getattr(a, n)) is type(v) and getattr(a, n) == v)
    CTX.require("lists", a.non_cyclic_vars is not b.non_cyclic_vars)
    a.non_cyclic_vars.append("states.x")
    CTX.require("lists", "states.x" not in b.non_cyclic_vars and "states.x" not in cls(**extra).non_cyclic_vars)


@canary("a round trip that loses the scales must be refuted")
def wrong():
    kw = config(SimConfig, {})
    c = SimConfig(**kw)
    d = c.to_dict()
    d.pop("scales")
    same("config", c, SimConfig(**d))

"""The real OCP classes over an abstract model, transcription and symbolic sizes."""
from contracts.common import *
import numpy as _np
from lumver.ctx import Infeasible
import lumos.optimal_control.transcription as trans
import lumos.optimal_control.scaled_mesh_ocp as smo
import lumos.optimal_control.fixed_mesh_ocp as fmo
from lumos.optimal_control.config import SimConfig

assume_note("The model is taken by its contract: name lists of symbolic length (states_dot named like the states), "
            "a mapped model_algebra unit problem with one result row per stage (C05, C13, C27).")
assume_note("A transcription is taken by its contract: A and B are (M-1) x M matrices of opaque reals (C06 decides "
            "which), LGR-type points start at 0 and end at 1.")


class Unit:
    def __init__(self, V, m, nj, nh, S):
        self.num_in, self.num_con = V, m
        self.nj, self.nh, self.S = nj, nh, S
        self.got = {}

    def jacobianstructure(self):
        return vec("ujr", self.nj, "int"), vec("ujc", self.nj, "int")

    def hessianstructure(self):
        return vec("uhr", self.nh, "int"), vec("uhc", self.nh, "int")

    def mapped_constraints(self, *a):
        self.got["c"] = a
        return arr("UC", self.S, self.num_con)

    def mapped_jacobian(self, *a):
        self.got["j"] = a
        return arr("UJ", self.S, self.nj)

    def mapped_hessian(self, *a):
        self.got["h"] = a
        return arr("UH", self.S, self.nh)


class Model:
    """Contract of a state space model, as the OCP classes use it."""
    implicit_inputs = ("states", "inputs", "states_dot", "con_outputs")
    _implicit_inputs = implicit_inputs

    def __init__(self, order=None, special=None):
        lo = dict(states=1, inputs=0, outputs=0, con_outputs=0, residuals=0)
        self.n = {g: CTX.size("n_" + g, lo[g]) for g in lo}
        nm = {g: names(g, self.n[g]) for g in lo}
        self.special = {}
        for g, name in (special or {}).items():
            if isinstance(name, list):          # exactly these names
                nm[g], self.n[g] = SymSeq([("lit", name)]), const(len(name))
                self.special[g] = {x: k for k, x in enumerate(name)}
                continue
            if isinstance(name, tuple):         # several names, in this order, anything between them
                segs, n, self.special[g] = [], const(0), {}
                for k, one in enumerate(name + (None,)):
                    a = CTX.size(f"{g}_gap{k}", 0)
                    segs, n = segs + names(f"{g}_{k}", a).segs, n + a
                    if one is not None:
                        segs, self.special[g][one], n = segs + [("lit", [one])], n, n + 1
                nm[g], self.n[g] = SymSeq(segs), n
                continue
            # a list with `name` at any position
            a, b = CTX.size(g + "_before", 0), CTX.size(g + "_after", 0)
            nm[g] = SymSeq(names(g, a).segs + [("lit", [name])] + names(g + "'", b).segs)
            self.n[g], self.special[g] = a + b + 1, a
        self.n["states_dot"] = self.n["states"]
        nm["states_dot"] = nm["states"]
        self.names = SSIO(**nm)
        if order is not None:
            self.implicit_inputs = self._implicit_inputs = order
        self.params = object()
        self.calls = []

    num_states = property(lambda self: self.n["states"])
    num_inputs = property(lambda self: self.n["inputs"])
    num_con_outputs = property(lambda self: self.n["con_outputs"])
    num_residuals = property(lambda self: self.n["residuals"])
    num_outputs = property(lambda self: self.n["outputs"])

    @property
    def num_implicit_res(self):
        return self.n["states"] + self.n["con_outputs"] + self.n["residuals"]

    def get_recursive_params(self):
        return self.params

    def set_recursive_params(self, p):
        self.params = p

    def set_con_outputs(self, con_outputs):
        self.calls.append(("con_outputs", con_outputs))

    def get_group_names(self, g):
        return getattr(self.names, g)

    def get_num_vars(self, g):
        return self.n[g]

    def make_const_vector(self, g, v=0.0):
        from lumver import symnp
        return symnp.full(self.n[g], v)

    def make_model_algebra_cons(self, backend):
        self.calls.append(("make", backend))


def abstract_transcription(kind):
    """kind 2: any two-stage scheme; 'M': LGR-type scheme with any number of stages."""
    if kind == 2:
        class Two(trans.Transcription):
            num_stages_per_interval = 2
            num_constraints_per_interval = 1

            def _get_A_matrix(self):
                return arr("A", 1, 2)

            def _get_B_matrix(self):
                return arr("B", 1, 2)
        return Two, const(2)
    M = CTX.size("M", 2)

    class Many(trans.LGR):
        def __init__(self, num_stages=None):
            self.num_stages_per_interval = M
            from lumver import symnp
            self.interp_points = symnp.hstack([const(0), vec("tau", M - 2), const(1)])
            self.collocation_points = self.interp_points[1:]

        num_constraints_per_interval = property(lambda self: M - 1)

        def _get_A_matrix(self):
            return arr("A", M - 1, M)

        def _get_B_matrix(self):
            return arr("B", M - 1, M)
    return Many, M


class World:
    def length(self, i):
        """Normalized length of interval i."""
        if self.points:
            return read("ip", [i + 1]) - read("ip", [i])
        return lift(1) / self.N

    def mesh_scale(self):
        return self.scale if self.fixed else read("x", [self.num - 1])


def world(fixed, kind, cyclic=False, orders=True, points=False, special=None, cls=None, late=None, **cfg):
    """A freshly constructed real OCP."""
    w = World()
    ords = [None, ("states_dot", "con_outputs", "states", "inputs")]
    w.model = Model(ords[CTX.choose(2)] if orders else None, special)
    w.n = w.model.n
    w.special = w.model.special
    tr, w.M = abstract_transcription(kind)
    trans.TRANSCRIPTION_OPTIONS["Abstract"] = tr
    w.N = CTX.size("N", 1)
    w.S = w.N * (w.M - 1) + 1
    w.off, V = {}, const(0)
    for g in w.model.implicit_inputs:
        w.off[g] = V
        V = V + w.n[g]
    w.V = V
    w.m = w.model.num_implicit_res
    nj, nh = CTX.size("nj", 0), CTX.size("nh", 0)
    for a in ("ujc", "uhr", "uhc"):
        CTX.array_bounds(a, lambda *i: (const(0), V - 1))
    CTX.array_bounds("ujr", lambda *i: (const(0), w.m - 1))
    w.unit = w.model.model_algebra = Unit(V, w.m, nj, nh, w.S)
    w.points = points
    if points:
        cfg["interval_points"] = vec("ip", w.N + 1)
    if late is not None:            # settings that mention the model's variables
        w.fixed = fixed
        cfg.update(late(w))
    c = w.config = SimConfig(num_intervals=w.N, transcription=("Abstract", {}), is_cyclic=cyclic, backend="custom",
                             **cfg)
    w.fixed = fixed
    try:
        if fixed:
            w.scale = sym("scale")
            CTX.assume(ge0(w.scale))
            CTX.assume(bnot(eq(w.scale, const(0))))
            w.num = w.S * V
            if cls is None:
                w.ocp = fmo.FixedMeshOCP(w.model, c, mesh_scale=w.scale)
            else:                       # a subclass, on the abstract model
                w.ocp = cls.__new__(cls)
                fmo.FixedMeshOCP.__init__(w.ocp, w.model, c, mesh_scale=w.scale)
        else:
            w.num = w.S * V + 1
            if cls is None:
                w.ocp = smo.ScaledMeshOCP(w.model, c)
            else:
                w.ocp = cls.__new__(cls)
                smo.ScaledMeshOCP.__init__(w.ocp, w.model, c)
    except ValueError:
        if not points:
            raise
        raise Infeasible()      # interval points the constructor refuses (C07)
    return w


def X(w, g, i, k, j):
    """x at stage k of interval i, variable j of group g."""
    return read("x", [(i * (w.M - 1) + k) * w.V + w.off[g] + j])

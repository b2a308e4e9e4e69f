"""A random smooth state space model with known derivatives, and optimal control problems over it.

Row r of (states_dot, outputs) is  c + b.z + z.A.z/2 + k sin(w.z + m*mesh + p*q)  with z = (states, inputs)."""
import numpy as np

from concrete.access import direct
import lumos.numpy as lnp
from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig, ScaleConfig, SimConfig
from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP

ORDERS = [("states", "inputs", "states_dot", "con_outputs"), ("states_dot", "con_outputs", "states", "inputs"),
          ("inputs", "states_dot", "states", "con_outputs")]


def P(u):
    """Antiderivative of u (u - 1) (u + 1) (u - 1/2) (u - 2)."""
    return u * u * (u * u * u * u / 6 - u * u * u / 2 + u * (2.5 / 3) - 0.5)


class Rows:
    """The random functions and their derivatives in numpy."""

    def __init__(self, rng, nz, nr, mesh):
        A = rng.normal(size=(nr, nz, nz)) * (rng.random((nr, nz, nz)) < 0.5)
        self.A = A + A.transpose(0, 2, 1)
        self.b = rng.normal(size=(nr, nz))
        self.c = rng.normal(size=nr)
        self.k = rng.normal(size=nr)
        self.w = rng.normal(size=(nr, nz))
        self.m = rng.normal(size=nr) * mesh
        self.q = rng.normal(size=nr)
        self.d = np.zeros((nr, nz))
        kind = rng.random()
        if kind < 0.15:           # a linear model: every second derivative vanishes
            self.A, self.k = 0 * self.A, 0 * self.k
        elif kind < 0.4:
            # every derivative by z vanishes at special values of z (0, 1, -1, 1/2, 2): z enters by P only
            self.A, self.b, self.w = 0 * self.A, 0 * self.b, 0 * self.w
            self.d = rng.normal(size=(nr, nz)) * (rng.random((nr, nz)) < 0.8)

    def val(self, z, mesh, p):
        th = self.w @ z + self.m * mesh + p * self.q
        return (self.c + self.b @ z + 0.5 * np.einsum("rij,i,j->r", self.A, z, z) + self.k * np.sin(th)
                + self.d @ np.array([P(u) for u in z]))

    def jac(self, z, mesh, p):
        th = self.w @ z + self.m * mesh + p * self.q
        return (self.b + self.A @ z + (self.k * np.cos(th))[:, None] * self.w
                + self.d * np.array([((((u - 2.5) * u) * u + 2.5) * u - 1) * u for u in z]))

    def hess(self, z, mesh, p):
        th = self.w @ z + self.m * mesh + p * self.q
        h = self.A - (self.k * np.sin(th))[:, None, None] * self.w[:, :, None] * self.w[:, None, :]
        i = np.arange(len(z))
        h[:, i, i] += self.d * np.array([5 * u ** 4 - 10 * u ** 3 + 5 * u - 1 for u in z])
        return h

    def symbolic(self, r, z, mesh, p):
        th = self.m[r] * mesh + p * self.q[r]
        v = self.c[r]
        for i in range(len(z)):
            th = th + self.w[r, i] * z[i]
            v = v + self.b[r, i] * z[i]
            if self.d[r, i]:
                v = v + self.d[r, i] * P(z[i])
            for j in range(len(z)):
                if self.A[r, i, j]:
                    v = v + (0.5 * self.A[r, i, j]) * z[i] * z[j]
        return v + self.k[r] * lnp.sin(th)


def toy_class(rng, mesh=False, states=None, order=None, residuals=None, sizes=None, inputs=None):
    big = sizes is None and inputs is None and rng.integers(10) == 0
    ns, ni, no = sizes or (int(rng.integers(1, 4)), int(rng.integers(0, 3)), int(rng.integers(0, 4)))
    if big:                       # two-digit name suffixes, many columns
        ns, ni, no = int(rng.integers(3, 12)), int(rng.integers(0, 5)), int(rng.integers(0, 12))
    # names that contain one another, or names of equal form
    pat, ipat = [("s%d", "u%d"), ("%sx", "%sx_u"), ("x%s", "u_x%s"), ("a_%d", "%d_a")][int(rng.integers(4))]
    mk = lambda f, k: f % ("v" * k if "%s" in f else k)
    st = tuple(mk(pat, k) for k in rng.permutation(ns)) if states is None else states
    ns = len(st)
    ins = tuple(mk(ipat, k) for k in rng.permutation(ni))
    if inputs is not None:        # one of the inputs has this name
        k = int(rng.integers(ni))
        ins = ins[:k] + (inputs,) + ins[k + 1:]
    outs = tuple(f"o{k}" for k in rng.permutation(no))
    if no and states is None and rng.integers(4) == 0:      # an output named like a state or an input
        outs = (st + ins)[int(rng.integers(ns + len(ins)))], *outs[1:]
        outs = tuple(str(n) for n in rng.permutation(outs))
    nres = int(rng.integers(0, no + 1)) if residuals is None else residuals
    res = tuple(rng.permutation(outs)[:nres].tolist()) if no else ()
    rows = Rows(rng, ns + ni, ns + no, mesh)

    @state_space_io(states=st, inputs=ins, outputs=outs, residuals=res)
    class Toy(StateSpaceModel):
        f = rows

        def forward(self, states, inputs, mesh=0.0):
            z = [states[n] for n in st] + [inputs[n] for n in ins]
            p = self._params["p"]
            v = [rows.symbolic(r, z, mesh, p) for r in range(ns + no)]
            return StateSpaceModelReturn(states_dot=dict(zip(st, v)), outputs=dict(zip(outs, v[ns:])))

        @classmethod
        def get_default_params(cls):
            return {"p": 0.5, "unused": 2.0}

        # what the residual rows are: states first, then con_outputs, then residuals
        def out_rows(self):
            return ([ns + outs.index(n) for n in self.get_group_names("con_outputs")],
                    [ns + outs.index(n) for n in self.get_group_names("residuals")])

        def _zidx(self):
            off, o = {}, 0
            for g in self._implicit_inputs:
                off[g] = o
                o += self.get_num_vars(g)
            return off, np.r_[off["states"]:off["states"] + ns, off["inputs"]:off["inputs"] + ni].astype(int)

        def full_val(self, v, mesh, p):
            off, zi = self._zidx()
            f = rows.val(v[zi], mesh, p)
            c, r = self.out_rows()
            nc = len(c)
            return np.concatenate([f[:ns] - v[off["states_dot"]:off["states_dot"] + ns],
                                   f[c] - v[off["con_outputs"]:off["con_outputs"] + nc], f[r]])

        def full_jac(self, v, mesh, p):
            off, zi = self._zidx()
            c, r = self.out_rows()
            J = np.zeros((ns + len(c) + len(r), len(v)))
            d = rows.jac(v[zi], mesh, p)
            J[:, zi] = d[list(range(ns)) + c + r]
            for k in range(ns):
                J[k, off["states_dot"] + k] -= 1
            for k in range(len(c)):
                J[ns + k, off["con_outputs"] + k] -= 1
            return J

        def full_hess(self, v, mult, mesh, p):
            off, zi = self._zidx()
            c, r = self.out_rows()
            h = rows.hess(v[zi], mesh, p)[list(range(ns)) + c + r]
            H = np.zeros((len(v), len(v)))
            H[np.ix_(zi, zi)] = np.einsum("r,rij->ij", mult, h)
            return H

        def _implicit_jac(self, v, mesh, params):
            r, c = self._implicit_jacobianstructure()
            return self.full_jac(np.asarray(v), mesh, params.get_param("p"))[r, c]

        def _implicit_jacobianstructure(self):
            off, zi = self._zidx()
            m, nc = self.num_implicit_res, self.num_con_outputs
            r = np.concatenate([np.repeat(np.arange(m), len(zi)), np.arange(ns), ns + np.arange(nc)])
            c = np.concatenate([np.tile(zi, m), off["states_dot"] + np.arange(ns), off["con_outputs"] + np.arange(nc)])
            p = np.random.default_rng(7).permutation(len(r))
            return r[p].astype(int), c[p].astype(int)

        def _implicit_hess(self, v, mult, mesh, params):
            r, c = self._implicit_hessianstructure()
            return self.full_hess(np.asarray(v), mult, mesh, params.get_param("p"))[r, c]

        def _implicit_hessianstructure(self):
            _, zi = self._zidx()
            r, c = np.repeat(zi, len(zi)), np.tile(zi, len(zi))
            p = np.random.default_rng(8).permutation(len(r))
            return r[p].astype(int), c[p].astype(int)

    if order is not None:
        Toy._implicit_inputs = order
    return Toy


class W:
    pass


def points(rng, N):
    if rng.integers(3) == 0:
        return None
    return np.concatenate([[0.0], np.cumsum(rng.uniform(0.2, 2.0, N))]) if False else _norm(rng.uniform(0.2, 2.0, N))


def _norm(d):
    p = np.concatenate([[0.0], np.cumsum(d)]) / np.sum(d)
    p[-1] = 1.0
    return p


def transcription(rng):
    k = int(rng.integers(5))
    return ["ForwardEuler", "Trapezoidal", "LGR", ("LGR", {"num_stages": int(rng.integers(2, 6))}),
            ("LGRIntegral", {"num_stages": int(rng.integers(2, 6))})][k]


def mesh_scale(rng):
    """A mesh scale: mostly of order one, sometimes very short or very long."""
    return float(np.exp(rng.uniform(-9, 9) if rng.integers(6) == 0 else rng.uniform(-1, 2)))


def world(rng, fixed=None, condensed=False, cyclic=None, mesh=True, backend="custom", states=None, order="any",
          sizes=None, inputs=None, cls=None, N=None, **cfg):
    """A random real OCP."""
    w = W()
    w.fixed = bool(rng.integers(2)) if fixed is None else fixed
    if order == "any":
        order = ORDERS[int(rng.integers(3))] if rng.integers(2) else None
    w.cls = toy_class(rng, mesh=mesh == "always" or bool(mesh and w.fixed), states=states, order=order, sizes=sizes, inputs=inputs)
    w.model = w.cls()
    w.p = float(rng.normal())
    t = w.model.get_recursive_params()
    t.set_param("p", w.p)
    w.model.set_recursive_params(t)
    w.N = N or (int(rng.integers(5, 13)) if rng.integers(10) == 0 else int(rng.integers(1, 5)))
    outs = list(direct(w.cls).outputs)
    con = tuple(rng.permutation(outs)[:int(rng.integers(0, len(outs) + 1))].tolist()) if outs else ()
    w.points = points(rng, w.N)
    w.tr = transcription(rng)
    w.cyclic = bool(rng.integers(2)) if cyclic is None else cyclic
    cyc = [f"states.{n}" for n in direct(w.cls).states] + [f"inputs.{n}" for n in direct(w.cls).inputs]
    w.noncyc = [n for n in cyc if rng.random() < 0.3]
    if len(w.noncyc) == len(cyc):
        w.noncyc = w.noncyc[1:]
    kw = dict(num_intervals=w.N, interval_points=w.points, transcription=w.tr, backend=backend, is_condensed=condensed,
              con_output_names=con, is_cyclic=w.cyclic, non_cyclic_vars=list(w.noncyc))
    kw.update(cfg)
    w.cfg = SimConfig(**kw)
    if w.fixed:
        w.scale = mesh_scale(rng)
        if cls is None:
            w.ocp = FixedMeshOCP(w.model, w.cfg, mesh_scale=w.scale)
        else:
            w.ocp = cls.__new__(cls)
            FixedMeshOCP.__init__(w.ocp, w.model, w.cfg, mesh_scale=w.scale)
    else:
        w.ocp = ScaledMeshOCP(w.model, w.cfg)
    finish(w)
    return w


def finish(w):
    """Layout facts, from the names only."""
    m, t = w.model, w.ocp.transcription
    w.A, w.B = t.get_continuity_matrices()
    w.M = t.num_stages_per_interval
    w.S = w.N * (w.M - 1) + 1
    w.groups = m.implicit_inputs
    w.n = {g: len(m.get_group_names(g)) for g in w.groups}
    w.off, o = {}, 0
    for g in w.groups:
        w.off[g] = o
        o += w.n[g]
    w.V = o
    w.num = w.S * w.V + (0 if w.fixed else 1)
    w.ip = w.points if w.points is not None else np.linspace(0, 1, w.N + 1)
    w.h = np.diff(w.ip)
    return w


def scale_of(w, x):
    return w.scale if w.fixed else x[-1]


def stage_mesh(w):
    """Normalized mesh of the stages."""
    t = np.array([0.0, 1.0]) if w.M == 2 else np.asarray(w.ocp.transcription.interp_points)
    m = [w.ip[0]]
    for i in range(w.N):
        m += list(w.ip[i] + t[1:] * w.h[i])
    return np.array(m)


def groups_of(w, x):
    """{group: S x n} values."""
    a = np.asarray(x)[:w.S * w.V].reshape(w.S, w.V)
    return {g: a[:, w.off[g]:w.off[g] + w.n[g]] for g in w.groups}


def cont(w, x):
    """The continuity equations, from the transcription matrices (oracle)."""
    v = groups_of(w, x)
    s = scale_of(w, x)
    rows = []
    for i in range(w.N):
        a = i * (w.M - 1)
        for l in range(w.M - 1):
            rows.append(w.A[l] @ v["states"][a:a + w.M] - w.h[i] * s * (w.B[l] @ v["states_dot"][a:a + w.M]))
    return np.concatenate(rows)


def dense(rows, cols, vals, shape):
    D = np.zeros(shape)
    np.add.at(D, (np.ravel(rows), np.ravel(cols)), np.ravel(vals))
    return D


def sym_upper(D):
    """Full symmetric matrix of a one-triangle Hessian."""
    return D + D.T - np.diag(np.diag(D))


def num_jac(f, x, eps=1e-6):
    """Central differences with one Richardson step."""
    x = np.asarray(x, float)
    cols = []
    for i in range(len(x)):
        def d(h):
            a, b = x.copy(), x.copy()
            a[i] += h
            b[i] -= h
            return (np.asarray(f(a), float) - np.asarray(f(b), float)) / (2 * h)
        h = 2e-3 * max(1.0, abs(x[i]))
        d1, d2, d4 = d(h), d(h / 2), d(h / 4)
        r1, r2 = (4 * d2 - d1) / 3, (4 * d4 - d2) / 3
        cols.append((16 * r2 - r1) / 15)
    return np.stack(cols, axis=-1)


def dir1(f, x, u, scale=1.0):
    """Directional derivative of f at x along u (Richardson-extrapolated central differences)."""
    def d(h):
        return (np.asarray(f(x + h * u), float) - np.asarray(f(x - h * u), float)) / (2 * h)
    h = 1e-2 * scale / max(1.0, float(np.max(np.abs(u), initial=0)))
    t = [d(h / 2 ** k) for k in range(4)]
    for k in range(1, 4):
        t = [(4 ** k * b - a) / (4 ** k - 1) for a, b in zip(t, t[1:])]
    return t[0]


def dir2(f, x, u, v, scale=1.0):
    """Second derivative of f along u and v."""
    return dir1(lambda y: dir1(f, y, v, scale * 10), x, u, scale * 10)

"""Runtime contract: the numerical backend is scoped."""
import logging
import types

import casadi
import jax.numpy as jnp
import numpy as np

import lumos.numpy as lnp
import lumos.numpy.casadi_numpy as cnp
from concrete.base import Violation, case, require, close, equal, raises

logging.disable(logging.CRITICAL)
MODS = dict(numpy=np, jax=jnp, casadi=cnp)
NAMES = list(MODS)


def active(b, where):
    require(lnp.get_backend() == b, f"{where}: the active backend is {lnp.get_backend()}, expected {b}")
    for f in ("sin", "where", "array", "linspace"):
        require(getattr(lnp, f) is getattr(MODS[b], f), f"{where}: lumos.numpy.{f} is not {b}'s")


class Boom(Exception):
    pass


class Run:
    """A random program of nested scopes, with a model of the active backend."""

    def __init__(self, rng):
        self.rng = rng
        self.steps = 0
        self.log = []
        # scopes made ahead, under whatever backend is active, and used later any number of times
        self.pool = []
        for _ in range(4):
            lnp.set_backend(NAMES[rng.integers(3)])
            t = NAMES[rng.integers(3)]
            self.pool.append((t, lnp.use_backend(t)))
        self.decorated = []
        for _ in range(3):
            lnp.set_backend(NAMES[rng.integers(3)])
            t = NAMES[rng.integers(3)]
            self.decorated.append((t, lnp.use_backend(t)(self.call)))
        self.cur = NAMES[rng.integers(3)]
        lnp.set_backend(self.cur)

    def scope(self):
        k = int(self.rng.integers(2))
        if k == 0:
            t = NAMES[self.rng.integers(3)]
            return t, lnp.use_backend(t)
        return self.pool[self.rng.integers(4)]

    def call(self, depth):
        self.body(depth)
        return lnp.get_backend()

    def body(self, depth):
        for _ in range(int(self.rng.integers(1, 4))):
            self.steps += 1
            active(self.cur, "in " + " ".join(self.log[-6:]))
            k = int(self.rng.integers(7))
            if k == 0:
                b = NAMES[self.rng.integers(3)]
                lnp.set_backend(b)
                self.cur = b
                self.log.append(f"set({b})")
            elif k == 1:
                bad = ["", "Numpy", "torch", None, "casadi ", "JAX", " numpy", "Casadi", "num", "jaxx"][self.rng.integers(10)]
                try:
                    if self.rng.integers(2):
                        lnp.set_backend(bad)
                    else:
                        with lnp.use_backend(bad):
                            active(self.cur, f"inside use_backend({bad!r})")
                except Violation:
                    raise
                except Exception:
                    pass
                self.log.append(f"set({bad!r})")
            elif k == 2 and depth > 2:
                self.log.append("raise")
                raise Boom()
            elif k in (3, 4) and depth < 5:
                t, cm = self.scope()
                before = self.cur
                self.log.append(f"enter({t})")
                try:
                    with cm:
                        self.cur = t
                        self.body(depth + 1)
                except Boom:
                    if self.rng.integers(2) and depth > 0:
                        self.cur = before
                        active(self.cur, "after an exception in " + " ".join(self.log[-8:]))
                        raise
                self.log.append("exit")
                self.cur = before
                active(self.cur, "after " + " ".join(self.log[-8:]))
            elif k in (5, 6) and depth < 5:
                t, f = self.decorated[self.rng.integers(3)]
                before = self.cur
                self.log.append(f"call({t})")
                self.cur = t
                try:
                    f(depth + 1)
                except Boom:
                    if self.rng.integers(2) and depth > 0:
                        self.cur = before
                        active(self.cur, "after an exception in " + " ".join(self.log[-8:]))
                        raise
                self.log.append("return")
                self.cur = before
                active(self.cur, "after " + " ".join(self.log[-8:]))
        active(self.cur, "in " + " ".join(self.log[-6:]))


@case(quick=500)
def programs(rng):
    old = lnp.get_backend()
    try:
        r = Run(rng)
        r.body(0)
        return dict(steps=r.steps)
    finally:
        lnp.set_backend(old)


@case(quick=60)
def recursion(rng):
    """One decorated function calling itself, one scope object entered again inside itself."""
    old = lnp.get_backend()
    try:
        for b in NAMES:
            lnp.set_backend(NAMES[rng.integers(3)])
            t = NAMES[rng.integers(3)]

            @lnp.use_backend(t)
            def f(n, sub):
                active(t, "in a decorated function")
                if n:
                    lnp.set_backend(sub[0])
                    f(n - 1, sub[1:])
                    active(sub[0], "after the inner call")
            lnp.set_backend(b)
            f(4, [NAMES[k] for k in rng.integers(3, size=4)])
            active(b, "after a recursive call")
            cm = lnp.use_backend(t)
            mid = NAMES[rng.integers(3)]
            lnp.set_backend(b)
            with cm:
                active(t, "inside")
                lnp.set_backend(mid)
                with cm:
                    active(t, "inside twice")
                active(mid, "after the inner scope")
            active(b, "after both scopes")
            with cm:
                active(t, "inside again")
            active(b, "after using the scope again")
        return dict(t=t)
    finally:
        lnp.set_backend(old)


@case(quick=30)
def exceptions(rng):
    old = lnp.get_backend()
    try:
        for b in NAMES:
            for t in NAMES:
                for exc in (ValueError, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration):
                    lnp.set_backend(b)

                    def f():
                        with lnp.use_backend(t):
                            raise exc()
                    raises(exc, f, f"{exc.__name__} did not leave the scope")
                    active(b, f"after {exc.__name__} inside use_backend({t})")
        return {}
    finally:
        lnp.set_backend(old)


@case(quick=20)
def models(rng):
    """Building and running models and mapped functions restores the active backend."""
    from concrete import toy
    old = lnp.get_backend()
    try:
        b = NAMES[rng.integers(3)]
        w0 = toy.toy_class(rng, sizes=(2, 1, 1))
        lnp.set_backend("numpy")
        m = w0()
        lnp.set_backend(b)
        try:
            m.make_model_algebra_cons("casadi")
        finally:
            active(b, "after building casadi functions")
        lnp.set_backend("numpy")
        m2 = w0()
        lnp.set_backend("casadi")
        m2.make_model_algebra_cons("jax")
        active("casadi", "after building jax functions")
        lnp.set_backend("numpy")
        x = rng.normal(size=(3, m2.num_implicit_var))
        y = m2.model_algebra.mapped_constraints(x, np.zeros(3), m2.get_recursive_params())
        active("numpy", "after calling jax functions made under casadi")
        close(y, np.stack([m2.full_val(v, 0.0, 0.5) for v in x]), "jax constraints")
        return dict(b=b)
    finally:
        lnp.set_backend(old)

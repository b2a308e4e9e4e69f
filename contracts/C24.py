"""C24: the numerical backend is scoped."""
import logging

from contracts.common import *
import lumos.numpy as lnp

logging.disable(logging.CRITICAL)
NAMES = ["numpy", "jax", "casadi"]


class Other(str):
    """Any string that is none of the backend names: equal to nothing but itself, of unknown content."""
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __format__(self, s):
        return "?"

    __str__ = __repr__ = lambda self: "?"

    def _unknown(self, *a, **k):
        raise Unsupported("content of an unknown string")

    lower = upper = strip = startswith = endswith = __len__ = __iter__ = __getitem__ = __contains__ = _unknown
    casefold = split = replace = title = capitalize = _unknown


class Below(list):
    """A list on top of arbitrarily many entries that nobody may look at: what is below is framed."""

    def _below(self, *a, **k):
        raise Unsupported("the part of the stack that belongs to the enclosing scopes is used")

    def pop(self, i=-1):
        if i != -1 or list.__len__(self) == 0:
            self._below()
        return list.pop(self)

    def __getitem__(self, i):
        if not isinstance(i, int) or i >= 0 or -i > list.__len__(self):
            self._below()
        return list.__getitem__(self, i)

    def __delitem__(self, i):
        if i != -1 or list.__len__(self) == 0:
            self._below()
        list.__delitem__(self, i)

    def __bool__(self):
        return True if list.__len__(self) else self._below()

    __len__ = __iter__ = __setitem__ = insert = clear = remove = index = __contains__ = sort = reverse = _below


def some(k=None):
    return NAMES[CTX.choose(3)]


def arbitrary_body():
    """Whatever a body does to the active backend (its own scopes are balanced): any of the three is active."""
    k = CTX.choose(4)
    if k < 3:
        lnp.set_backend(NAMES[k])


def generic(cm):
    """The scope object in an arbitrary state of use: entered any number of times before (and not left)."""
    found = False
    for k, v in list(vars(cm).items()):
        if type(v) is list:
            setattr(cm, k, Below(v))
            found = True
    return found


def active(b, what):
    CTX.require(what, lnp.get_backend() == b)


@goal("set_backend: a known name becomes active, any other value leaves the active backend")
def setting():
    b, t = some(), some()
    lnp.set_backend(b)
    active(b, "after setting a known backend")
    lnp.set_backend(t)
    active(t, "a later call wins")
    bad = [Other(), None, 3][CTX.choose(3)]
    try:
        lnp.set_backend(bad)
    except (Unsupported, AssertionError):
        raise
    except Exception:
        pass
    active(t, "unknown backend")
    arbitrary_body()
    lnp.set_backend("numpy")
    active("numpy", "default")


@goal("lumos.numpy attributes are the active backend's")
def attributes():
    b = some()
    lnp.set_backend(b)
    try:
        maps = [v for k, v in vars(lnp).items() if isinstance(v, dict) and set(v) == set(NAMES)]
        own = set(vars(lnp))
        CTX.require("one table of backends", len(maps) == 1)
        import numpy
        import jax.numpy
        import lumos.numpy.casadi_numpy as cnp
        real = dict(numpy=numpy, jax=jax.numpy, casadi=cnp)
        for n in NAMES:
            CTX.require("the module of the backend", getattr(maps[0][n], "_real", maps[0][n]) is real[n])
        mod = maps[0][b]
        for a in dir(real[b]):
            if a not in own and not a.startswith("_"):
                x, y = getattr(lnp, a), getattr(mod, a)
                CTX.require(f"{b}.{a}", x is y or same_proxy(x, y))
        a = next(x for x in "abc" if x not in own)
        try:
            getattr(lnp, "no_such_function_" + a)
            CTX.fail("unknown attribute", "an attribute the backend does not have was found")
        except AttributeError:
            CTX.require("unknown attribute", True)
    finally:
        lnp.set_backend("numpy")


def same_proxy(x, y):
    a, b = (getattr(v, "_real", getattr(v, "_real_type", v)) for v in (x, y))
    if a is b:
        return True
    try:
        return type(x) is type(y) and (getattr(x, "__name__", 0) == getattr(y, "__name__", 1) or bool(x == y))
    except Exception:
        return False


class Boom(BaseException):
    pass


def use(how, cm, body):
    """The ways of using a scope: with statement, decorated function, explicit enter and exit."""
    if how == 0:
        with cm:
            return body()
    if how == 1:
        return cm(body)()
    if how == 2:
        @cm
        def f(x, *, y):
            r = body()
            CTX.require("arguments", (x, y) == (1, 2))
            return r
        return f(1, y=2)
    return None


def scope_case(depth, gen):
    """One use of a scope object that is already active `depth` times (and any number of times if gen)."""
    made = some() if not depth else "numpy"
    lnp.set_backend(made)
    t = some()
    cm = lnp.use_backend(t)
    active(made, "making a scope changes nothing")
    entries = []
    g = False
    for _ in range(depth):
        b = some()
        lnp.set_backend(b)
        entries.append(b)
        cm.__enter__()
        active(t, "enclosing scope entered")
    if gen:
        g = generic(cm)
    b = some()
    lnp.set_backend(b)
    how, boom = CTX.choose(3 if not depth else 2), bool(CTX.choose(2))

    def body():
        active(t, "active inside")
        arbitrary_body() if not depth else lnp.set_backend(some())
        if boom:
            raise Boom()
        return 7
    try:
        r = use(how, cm, body)
        CTX.require("the body's result", not boom and (how == 0 or r == 7))
    except Boom:
        CTX.require("the body's exception", boom)
    active(b, "restored on exit")
    for e in reversed(entries):
        lnp.set_backend(some())
        r = cm.__exit__(*((Boom, Boom(), None) if CTX.choose(2) else (None, None, None)))
        CTX.require("exceptions pass", not r)
        active(e, "enclosing scope restored")
    lnp.set_backend("numpy")
    return g


@goal("use_backend: fresh scope")
def depth0():
    scope_case(0, False)


@goal("use_backend: scope object already active once")
def depth1():
    scope_case(1, False)


@goal("use_backend: scope object already active any number of times")
def depth_any():
    scope_case(0, True)


@goal("use_backend: scopes used again after they were left, and two scopes interleaved with plain sets")
def again():
    t, u = some(), some()
    a, c = lnp.use_backend(t), lnp.use_backend(u)
    for _ in range(2):
        b = some()
        lnp.set_backend(b)
        with a:
            active(t, "outer")
            with c:
                active(u, "inner")
                with a:
                    active(t, "outer again")
                    arbitrary_body()
                active(u, "inner restored")
            active(t, "outer restored")
        active(b, "entry backend restored")
    lnp.set_backend("numpy")


@goal("use_backend: a decorated recursive function, every depth by its own contract")
def recursion():
    t = some()
    state = {}

    @lnp.use_backend(t)
    def f(n):
        active(t, "active inside")
        if n:
            k = some()
            lnp.set_backend(k)
            f(n - 1)
            active(k, "the inner call restores")
    b = some()
    lnp.set_backend(b)
    f(CTX.choose(3))
    active(b, "restored")
    lnp.set_backend("numpy")


@canary("a scope that restores the backend of its construction must be refuted")
def wrong():
    lnp.set_backend("numpy")
    cm = lnp.use_backend("jax")
    b = some()
    lnp.set_backend(b)
    with cm:
        pass
    try:
        active("numpy", "restored")
    finally:
        lnp.set_backend("numpy")


assume_note("a body's own scopes are balanced (each entered scope is left again, in reverse order); threads do not "
            "share the global backend")
assume_note("scope objects active any number of times: their list attributes get an unknown lower part that must not "
            "be read; states of use kept in another form are covered up to depth 1 plus recursion to depth 3")

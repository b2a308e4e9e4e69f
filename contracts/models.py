"""Helpers for contracts on loop-free physical models."""
from contracts.common import *
from lumver.terms import fn
from lumver import symnp, terms
import numpy as np


class M:
    """Arithmetic of the specifications over symbolic terms."""
    pi = np.pi
    abs = staticmethod(lambda x: fn("abs", x))
    minimum = staticmethod(lambda a, b: symnp.minimum(a, b))


for _n in ("sin", "cos", "tan", "exp", "arctan", "arccos", "sqrt", "sign", "tanh", "log"):
    setattr(M, _n, staticmethod(lambda x, _n=_n: fn(_n, x)))


def symbolic_params(model):
    """Give every scalar parameter of the model its own free symbol."""
    p = {k: sym(k) for k, v in model.get_default_params().items() if np.ndim(v) == 0}
    model._params = dict(p)
    return p
symnp.BRANCH_MINMAX = False
terms.IDEAL_FLOATS = True
assume_note("every quotient, root and inverse function of the formulae is within its domain")
assume_note("float literals stand for the simple numbers they round (0.1, 1/3, pi/2)")

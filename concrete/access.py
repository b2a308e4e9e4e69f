"""What the checks need of a problem that has no public accessor, found by what it is rather than by its name."""
import numpy as np

from concrete.base import Skip


def _parts(p, private, has, lacks, names=None):
    d = getattr(p, private, None)
    if isinstance(d, dict):
        return d
    for v in vars(p).values():
        if isinstance(v, dict) and v and all(hasattr(c, has) and not (lacks and hasattr(c, lacks)) for c in v.values()):
            if names is None or set(v) == names:
                return v
    return {}


def constraints_of(p):
    """name -> component of the constraints that are part of the problem."""
    d = getattr(p, "_constraints", None)
    if isinstance(d, dict):
        return d
    names = set(p.split_constraints(np.zeros(p.num_con)))
    return _parts(p, "_constraints", "constraints", None, names)


def objectives_of(p):
    return _parts(p, "_objectives", "objective", "constraints")


def set_dec_scales(p, s):
    """Scales of the decision variables of a plain composite problem, before its components are added."""
    if hasattr(p, "_dec_var_scales"):
        p._dec_var_scales = s
        return
    k = [k for k, v in vars(p).items() if "scale" in k and isinstance(v, np.ndarray) and v.shape == (p.num_dec,)]
    if len(k) == 1:
        setattr(p, k[0], s)
    else:
        raise Skip("no scales of the decision variables")


def flat_mesh(ocp):
    """The normalized mesh at every stage."""
    return np.asarray(ocp.get_mesh_from_scale(1.0))


def direct(cls):
    """Own names of a model class, by group."""
    return type("Names", (), {g: cls.get_direct_group_names(g) for g in ("inputs", "outputs", "states", "con_outputs",
                                                                          "residuals") if _has(cls, g)})


def _has(cls, g):
    try:
        cls.get_direct_group_names(g)
        return True
    except AttributeError:
        return False

"""Exact snapshots of implementation objects (for independence / read-only checks)."""
import numpy


def _key(v):
    if v is None:
        return None
    if isinstance(v, numpy.ndarray):
        return (v.shape, tuple(_key(x) for x in v.flatten()))
    if isinstance(v, (list, tuple)):
        return tuple(_key(x) for x in v)
    return (type(v).__name__, repr(v))


ATTRS = ("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom", "four_mom_d")


def snap_leg(p):
    return tuple(_key(getattr(p, a, None)) for a in ATTRS) + (repr(p.field),)


def snapshot(oPs):
    return (tuple(snap_leg(p) for p in oPs), repr(oPs.field),
            tuple(sorted((k, _key(v)) for k, v in oPs.internal_masses_dict.items())),
            snap_leg(oPs.oRefVec))

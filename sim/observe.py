"""
What a user can observe of an object, through its public attributes only, as a
canonical nested tuple (NaN-safe, exact to the bit otherwise).
"""
import hashlib

import numpy as np
import unum

from IMTreatment import core as imtcore
from IMTreatment.vortex_detection import vortex_detection as vod
from IMTreatment.pod import pod as imtpod

FIELD = ("axe_x", "axe_y", "unit_x", "unit_y")
PUBLIC = [
    (imtpod.ModalFields, FIELD + ("unit_values", "decomp_type", "mean_field",
                                  "modes", "modes_nmb", "temp_evo", "times",
                                  "unit_times")),
    (vod.MeanTrajectory, ("xy", "v", "unit_x", "unit_y", "unit_v", "name",
                          "assoc_real_times", "assoc_std_x", "assoc_std_y",
                          "nmb_traj_used", "base_trajs")),
    (vod.CritPoints, ("foc", "foc_c", "node_i", "node_o", "sadd", "times",
                      "unit_x", "unit_y", "unit_time", "foc_traj",
                      "foc_c_traj", "node_i_traj", "node_o_traj", "sadd_traj",
                      "current_epsilon", "colors", "cp_types")),
    (vod.TopoPoints, ("xy", "types")),
    (imtcore.TemporalFields, ("fields", "times", "unit_times") + FIELD),
    (imtcore.SpatialFields, ("fields",)),
    (imtcore.TemporalPoints, ("point_sets", "times", "unit_times")),
    (imtcore.ScalarField, FIELD + ("values", "mask", "unit_values")),
    (imtcore.VectorField, FIELD + ("comp_x", "comp_y", "mask",
                                   "unit_values")),
    (imtcore.OrientedPoints, ("xy", "v", "orientations", "unit_x", "unit_y",
                              "unit_v", "name")),
    (imtcore.Points, ("xy", "v", "unit_x", "unit_y", "unit_v", "name")),
    (imtcore.Profile, ("x", "y", "mask", "unit_x", "unit_y", "name")),
    (imtcore.Field, FIELD),
]


class Raw(object):
    """Computed numbers, for `near`."""

    def __init__(self, a):
        self.a = np.array(a, copy=True)

    def __repr__(self):
        return repr(self.a)


def raw(x):
    """Like obs, with the numbers themselves."""
    return obs(x, "raw")


def near(a, b):
    """Are two raw observations the same up to the rounding that depends on
    where in memory the operands lie (BLAS, LAPACK)?"""
    if type(a) is not type(b):
        return False
    if isinstance(a, Raw):
        a, b = a.a, b.a
        if a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        with np.errstate(all="ignore"):
            if not np.array_equal(np.isfinite(a), np.isfinite(b)):
                return False
            f = np.isfinite(a)
            if not np.array_equal(np.isnan(a), np.isnan(b)):
                return False
            a, b = a[f], b[f]
            if a.size == 0:
                return True
            top = max(np.abs(a).max(), np.abs(b).max())
            return bool(np.all(np.abs(a - b) <= 1e-7*np.abs(b)
                               + 1e-11*top + 1e-13))
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return a == b


def _arr(a, exact):
    a = np.asarray(a)
    if exact == "raw" and a.dtype.kind in "fc":
        return ("arr", a.dtype.str, a.shape, Raw(a))
    if a.dtype == object:
        return ("oarr", a.shape, tuple(obs(x, exact) for x in a.ravel()))
    if a.dtype.kind == "f" or a.dtype.kind == "c":
        b = np.array(a, copy=True)
        nan = np.isnan(b)
        if nan.any():
            b[nan] = np.nan
        b = b + 0.0        # -0.0 and 0.0 are the same value
        data = np.ascontiguousarray(b).tobytes()
    else:
        data = np.ascontiguousarray(a).tobytes()
    return ("arr", a.dtype.str if exact else a.dtype.kind, a.shape,
            hashlib.md5(data).hexdigest())


def obs(x, exact=True):
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, unum.Unum):
        # a unit rewrites itself (1000 mm/m -> 1) when it is displayed
        x = x.copy()
        x.normalize(True)
        return ("unit", obs(float(x._value), exact)
                if isinstance(x._value, (int, float, np.number))
                else obs(x._value, exact),
                tuple(sorted(x._unit.items())))
    if isinstance(x, (int, np.integer, np.bool_)):
        return int(x)
    if exact == "raw" and isinstance(x, (float, np.floating, complex,
                                         np.complexfloating)):
        return ("f", Raw(x))
    if isinstance(x, (float, np.floating)):
        return ("f", float(x).hex() if x == x else "nan")
    if isinstance(x, (complex, np.complexfloating)):
        return ("c", repr(complex(x)))
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", _arr(x.filled(0), exact),
                _arr(np.ma.getmaskarray(x), exact))
    if isinstance(x, np.ndarray):
        return _arr(x, exact)
    for cls, attrs in PUBLIC:
        if isinstance(x, cls):
            out = [type(x).__name__]
            for a in attrs:
                out.append((a, obs(getattr(x, a), exact)))
            return tuple(out)
    if isinstance(x, dict):
        return ("dict", tuple(sorted((repr(k), obs(v, exact))
                                     for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(obs(v, exact) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(repr(v) for v in x)))
    if callable(x):
        return ("callable", getattr(x, "__name__", type(x).__name__))
    if hasattr(x, "__dict__"):
        return (type(x).__name__, tuple(sorted(
            (k, obs(v, exact)) for k, v in vars(x).items()
            if not k.startswith("_"))))
    return ("repr", type(x).__name__)


def dig(x, exact=True):
    return hashlib.md5(repr(obs(x, exact)).encode()).hexdigest()[:16]


def diff(a, b, path=""):
    """First difference between two observations."""
    if type(a) is not type(b):
        return "%s: %r -> %r" % (path, _s(a), _s(b))
    if isinstance(a, tuple):
        if (len(a) == 2 and len(b) == 2 and isinstance(a[0], str)
                and a[0] == b[0]):
            return diff(a[1], b[1], path + "." + a[0])
        if len(a) != len(b):
            return "%s: %r -> %r" % (path, _s(a), _s(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + "[%d]" % i
                            if not isinstance(x, tuple) else path)
        return None
    if a != b:
        return "%s: %s -> %s" % (path, _s(a), _s(b))
    return None


def _s(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


# buffers reachable from an object (used to detect shared storage) -----------
def arrays(x, seen=None, depth=0):
    """All numpy arrays reachable from x through attributes and containers."""
    if seen is None:
        seen = set()
    if id(x) in seen or depth > 12:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        yield x
        if x.dtype == object:
            for v in x.ravel():
                yield from arrays(v, seen, depth + 1)
    elif isinstance(x, dict):
        for v in x.values():
            yield from arrays(v, seen, depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays(v, seen, depth + 1)
    elif type(x).__module__.startswith("IMTreatment"):
        yield from arrays(vars(x), seen, depth + 1)

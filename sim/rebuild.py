"""Builds an object again from its public attributes only."""
import copy

import numpy as np

from IMTreatment import core
from IMTreatment.pod.pod import ModalFields
from IMTreatment.vortex_detection.vortex_detection import CritPoints

from .objs import kind_of


class Cannot(Exception):
    pass


def k(a):
    return np.array(a, copy=True, order="K")


def extra(o, n):
    if hasattr(o, "xy_scale"):
        n.xy_scale = o.xy_scale
    return n


def rebuild(o):
    kind = kind_of(o)
    if kind == "SF":
        f = core.ScalarField()
        f.import_from_arrays(k(o.axe_x), k(o.axe_y), k(o.values),
                             mask=k(o.mask), unit_x=o.unit_x,
                             unit_y=o.unit_y, unit_values=o.unit_values)
        return extra(o, f)
    if kind == "VF":
        f = core.VectorField()
        f.import_from_arrays(k(o.axe_x), k(o.axe_y), k(o.comp_x), k(o.comp_y),
                             mask=k(o.mask), unit_x=o.unit_x,
                             unit_y=o.unit_y, unit_values=o.unit_values)
        return extra(o, f)
    if kind == "PTS":
        return core.Points(k(o.xy), v=k(o.v), unit_x=o.unit_x,
                           unit_y=o.unit_y, unit_v=o.unit_v, name=o.name)
    if kind == "OPTS":
        return core.OrientedPoints(k(o.xy), orientations=k(o.orientations),
                                   v=k(o.v), unit_x=o.unit_x,
                                   unit_y=o.unit_y, unit_v=o.unit_v,
                                   name=o.name)
    if kind == "PROF":
        return core.Profile(k(o.x), k(o.y), mask=k(o.mask), unit_x=o.unit_x,
                            unit_y=o.unit_y, name=o.name)
    if kind in ("TSF", "TVF"):
        if len(o) == 0:
            raise Cannot("empty")
        t = type(o)()
        for ti, f in zip(o.times, o.fields):
            t.add_field(rebuild(f), time=float(ti), unit_times=o.unit_times)
        return extra(o, t)
    if kind in ("SSF", "SVF"):
        if len(o) == 0:
            raise Cannot("empty")
        t = type(o)()
        for f in o.fields:
            t.add_field(rebuild(f))
        return t
    if kind == "TPTS":
        if len(o) == 0:
            raise Cannot("empty")
        t = type(o)()
        for ti, f in zip(o.times, o.point_sets):
            t.add_pts(rebuild(f), time=float(ti), unit_times=o.unit_times)
        return t
    if kind == "MF":
        m = ModalFields(o.decomp_type, rebuild(o.mean_field),
                        [rebuild(f) for f in o.modes], list(o.modes_nmb),
                        [rebuild(p) for p in o.temp_evo],
                        eigvals=copy.deepcopy(o.eigvals),
                        eigvects=copy.deepcopy(o.eigvects))
        return m
    if kind == "CP" and o.foc_traj is None:
        c = CritPoints(unit_time=o.unit_time)
        for i, t in enumerate(o.times):
            c.add_point(time=float(t), foc=rebuild(o.foc[i]),
                        foc_c=rebuild(o.foc_c[i]),
                        node_i=rebuild(o.node_i[i]),
                        node_o=rebuild(o.node_o[i]),
                        sadd=rebuild(o.sadd[i]))
        return c
    raise Cannot(kind)

"""Seeded builders of IMTreatment objects from small JSON specs."""
import numpy as np
import random

from IMTreatment import (Points, OrientedPoints, Profile, ScalarField,
                         VectorField, TemporalScalarFields,
                         TemporalVectorFields, TemporalPoints)
from IMTreatment.core import SpatialScalarFields, SpatialVectorFields
from IMTreatment.vortex_detection.vortex_detection import CritPoints

UNITS_L = ["", "m", "mm", "cm"]
UNITS_V = ["", "m/s", "mm/s", "K", "counts"]
UNITS_T = ["", "s", "ms"]
KINDS = ["SF", "VF", "PTS", "OPTS", "PROF", "TSF", "TVF", "SSF", "SVF",
         "TPTS", "CP"]


def gen_spec(rng, kind=None, **fixed):
    kind = kind or rng.choice(KINDS)
    spec = {"kind": kind, "seed": rng.randrange(1 << 30)}
    if kind in ("SF", "VF", "TSF", "TVF", "SSF", "SVF"):
        spec["nx"] = rng.randint(3, 9)
        spec["ny"] = rng.randint(3, 9)
        if spec["nx"] == spec["ny"] and rng.random() < .7:
            spec["ny"] += 1
        spec["mask"] = rng.choice(["none", "none", "some", "border", "one"])
        spec["even"] = rng.random() < .8
        spec["n"] = rng.randint(2, 6)
    else:
        spec["n"] = rng.choice([0, 1, 2, 3, 5, 8]) if rng.random() < .4 \
            else rng.randint(4, 12)
        spec["mask"] = rng.choice(["none", "none", "some"])
    if kind in ("TPTS", "CP"):
        spec["n"] = rng.randint(2, 5)
    if kind == "PROF":
        spec["even"] = rng.random() < .6
    if kind == "CP" and rng.random() < .6:
        spec["traj"] = rng.choice([1., 4.])
    if kind == "MF":
        spec.update(gen_spec(rng, rng.choice(["TSF", "TVF"])), kind="MF",
                    mask="none", of=rng.choice(["TSF", "TVF"]),
                    dt=.5, n=rng.randint(3, 6),
                    decomp="pod")
    spec["ux"] = rng.choice(UNITS_L)
    spec["uy"] = rng.choice(UNITS_L)
    spec["uv"] = rng.choice(UNITS_V)
    spec["ut"] = rng.choice(UNITS_T)
    spec.update(fixed)
    return spec


def _axis(rs, n, even):
    x0 = np.round(rs.uniform(-5, 5), 3)
    if even:
        return x0 + np.arange(n)*np.round(rs.uniform(.1, 2), 3)
    return x0 + np.cumsum(np.round(rs.uniform(.1, 2, n), 3))


def _mask(rs, shape, kind):
    m = np.zeros(shape, dtype=bool)
    if kind == "some":
        m = rs.uniform(size=shape) < .2
    elif kind == "one":
        m[tuple(rs.randint(0, s) for s in shape)] = True
    elif kind == "border":
        m[0, :] = True
        if rs.uniform() < .5:
            m[:, -1] = True
    if m.all():
        m[...] = False
    return m


def _vals(rs, X, Y):
    a, b, c, d = rs.uniform(-2, 2, 4)
    return (a + b*X + c*np.sin(Y + d) + .3*rs.normal(size=X.shape))


def _zeros(spec, a):
    """Some values are exactly zero in one object out of four."""
    if spec["seed"] % 4 == 1 and a.size:
        a[np.random.RandomState(spec["seed"] % 1000).uniform(size=a.shape)
          < .25] = 0.
    return a


def sf(spec, rs, axes=None, mask=None):
    ax, ay = axes or (_axis(rs, spec["nx"], spec.get("even", True)),
                      _axis(rs, spec["ny"], spec.get("even", True)))
    X, Y = np.meshgrid(ax, ay, indexing="ij")
    m = _mask(rs, X.shape, spec.get("mask", "none")) if mask is None else mask
    f = ScalarField()
    f.import_from_arrays(ax.copy(), ay.copy(),
                         _zeros(spec, _vals(rs, X, Y)), mask=m.copy(),
                         unit_x=spec["ux"], unit_y=spec["uy"],
                         unit_values=spec["uv"])
    return f


def vf(spec, rs, axes=None, mask=None):
    ax, ay = axes or (_axis(rs, spec["nx"], spec.get("even", True)),
                      _axis(rs, spec["ny"], spec.get("even", True)))
    X, Y = np.meshgrid(ax, ay, indexing="ij")
    m = _mask(rs, X.shape, spec.get("mask", "none")) if mask is None else mask
    f = VectorField()
    f.import_from_arrays(ax.copy(), ay.copy(), _zeros(spec, _vals(rs, X, Y)),
                         _zeros(spec, _vals(rs, X, Y)), mask=m.copy(),
                         unit_x=spec["ux"],
                         unit_y=spec["uy"], unit_values=spec["uv"])
    return f


def pts(spec, rs, n=None):
    n = spec["n"] if n is None else n
    xy = np.round(rs.uniform(-5, 5, (n, 2)), 4)
    v = _zeros(spec, np.round(rs.uniform(-5, 5, n), 4)) \
        if spec["seed"] % 3 else []
    return Points(xy, v=v, unit_x=spec["ux"], unit_y=spec["uy"],
                  unit_v=spec["ut"] if spec.get("vt") else spec["uv"],
                  name="set%d" % (spec["seed"] % 5))


def build(spec):
    rs = np.random.RandomState(spec["seed"] % (1 << 31))
    k = spec["kind"]
    if k == "SF":
        return sf(spec, rs)
    if k == "VF":
        return vf(spec, rs)
    if k == "PTS":
        return pts(spec, rs)
    if k == "OPTS":
        n = max(1, spec["n"])
        xy = np.round(rs.uniform(-5, 5, (n, 2)), 4)
        ori = rs.normal(size=(n, 2, 2))
        v = np.round(rs.uniform(-5, 5, n), 4) if spec["seed"] % 3 else []
        return OrientedPoints(xy, orientations=ori, v=v, unit_x=spec["ux"],
                              unit_y=spec["uy"], unit_v=spec["uv"])
    if k == "PROF":
        n = spec["n"]
        x = np.cumsum(np.round(rs.uniform(.1, 2, n), 3))
        if spec.get("even"):
            x = 1. + .5*np.arange(n)
        y = _zeros(spec, np.round(rs.uniform(-5, 5, n), 4))
        m = np.zeros(n, dtype=bool)
        if spec.get("mask") == "some":
            m = rs.uniform(size=n) < .2
        return Profile(x, y, mask=m, unit_x=spec["ux"], unit_y=spec["uy"],
                       name="prof%d" % (spec["seed"] % 5))
    if k in ("TSF", "TVF"):
        ax = _axis(rs, spec["nx"], spec.get("even", True))
        ay = _axis(rs, spec["ny"], spec.get("even", True))
        t = TemporalScalarFields() if k == "TSF" else TemporalVectorFields()
        if spec.get("dt"):
            times = spec.get("t0", 0.) + spec["dt"]*np.arange(spec["n"])
        else:
            times = np.cumsum(np.round(rs.uniform(.1, 1, spec["n"]), 3))
        f = sf if k == "TSF" else vf
        m0 = _mask(rs, (spec["nx"], spec["ny"]), spec.get("mask", "none"))
        for ti in times:
            m = m0
            if spec.get("mask") == "some":
                m = _mask(rs, m0.shape, "some")
            t.add_field(f(spec, rs, axes=(ax, ay), mask=m), time=float(ti),
                        unit_times=spec["ut"])
        return t
    if k in ("SSF", "SVF"):
        t = SpatialScalarFields() if k == "SSF" else SpatialVectorFields()
        f = sf if k == "SSF" else vf
        for i in range(max(2, spec["n"]//2)):
            t.add_field(f(spec, rs))
        return t
    if k == "TPTS":
        t = TemporalPoints()
        sub = dict(spec)
        for i in range(spec["n"]):
            t.add_pts(pts(sub, rs, n=rs.randint(1, 6)), time=float(i)*.5 + 1,
                      unit_times=spec["ut"])
        return t
    if k == "CP":
        c = CritPoints(unit_time=spec["ut"] or "s")
        for i in range(spec["n"]):
            d = {}
            for name in ("foc", "foc_c", "node_i", "node_o", "sadd"):
                n = rs.randint(0, 4)
                ti = float(i)*.5
                xy = rs.uniform(-5, 5, (n, 2))
                kw = dict(v=[ti]*n, unit_x=spec["ux"], unit_y=spec["uy"],
                          unit_v=spec["ut"] or "s")
                if name == "sadd":
                    d[name] = OrientedPoints(
                        xy, orientations=rs.normal(size=(n, 2, 2)), **kw)
                else:
                    d[name] = Points(xy, **kw)
            c.add_point(time=ti, **d)
        if spec.get("traj"):
            c.compute_traj(epsilon=spec["traj"])
        return c
    if k == "MF":
        from IMTreatment.pod.pod import modal_decomposition
        t = build(dict(spec, kind=spec["of"]))
        return modal_decomposition(t, kind=spec["decomp"], verbose=False)
    if k == "LIT":
        return literal(spec, rs)
    raise ValueError(k)


def literal(spec, rs):
    """Plain Python and numpy data (the exporter takes 'common objects')."""
    r = random.Random(spec["seed"])
    n = spec["n"]
    which = spec["seed"] % 8
    if which == 0:
        return {"a": list(range(n)), "b": rs.normal(size=(n, 3)),
                "c": {"x": None, "y": "txt\u00e9\n" * n}}
    if which == 1:
        return rs.normal(size=(n + 1, n + 2))
    if which == 2:
        return [r.random() for _ in range(n)] + [None, True, "z"]
    if which == 3:
        return "text" * (n * 50)
    if which == 4:
        return None
    if which == 5:
        return (rs.randint(0, 99, n), bytes(r.randrange(256)
                                            for _ in range(n * 40)))
    if which == 6:
        return rs.normal(size=(40, 50 + n))       # larger than one buffer
    return {i: (i, float(i)) for i in range(n * 20)}


def kind_of(x):
    from IMTreatment.pod.pod import ModalFields
    for k, c in (("MF", ModalFields), ("CP", CritPoints),
                 ("TSF", TemporalScalarFields), ("TVF", TemporalVectorFields),
                 ("SSF", SpatialScalarFields), ("SVF", SpatialVectorFields),
                 ("TPTS", TemporalPoints), ("SF", ScalarField),
                 ("VF", VectorField), ("OPTS", OrientedPoints),
                 ("PTS", Points), ("PROF", Profile)):
        if type(x) is c:
            return k
    return None

"""
Operations a user can apply to IMTreatment objects.

Every operation is ``prep(o, e) -> thunk``: `prep` draws the arguments from the
seeded environment `e` (arguments that belong to the caller go through
``e.own``), `thunk` performs the one call.  Effects:

  q   asks something about the object          (nothing may change)
  n   makes another object out of it           (nothing may change)
  i   alters the object it is called on        (nothing else may change)
"""
import random

import numpy as np

import IMTreatment as IMT
from IMTreatment import core
from IMTreatment import field_treatment as ft
from IMTreatment import vortex_criterions as vc
from IMTreatment import vortex_properties as vp
from IMTreatment import boundary_layer as bl
from IMTreatment.pod import pod
from IMTreatment.utils import make_unit
from IMTreatment.vortex_detection import vortex_detection as vod

from . import objs

OPS = {}


class Op(object):
    def __init__(self, name, kinds, effect, prep, twin=None, weight=1.):
        self.name, self.kinds, self.effect = name, kinds, effect
        self.prep, self.weight = prep, weight
        self.twin = twin


def op(kinds, effect, name, weight=1.):
    def deco(f):
        for k in kinds.split():
            OPS["%s.%s" % (k, name)] = Op("%s.%s" % (k, name), k, effect, f,
                                          weight=weight)
        return f
    return deco


def names(kind=None, effects="qni"):
    return sorted(n for n, o in OPS.items()
                  if (kind is None or o.kinds == kind)
                  and o.effect in effects)


class Env(object):
    """Draws arguments; remembers those that belong to the caller."""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.owned = []

    def own(self, x):
        self.owned.append(x)
        return x

    def seq(self, vals):
        """A caller-owned sequence of numbers: a list or an array."""
        vals = [v if isinstance(v, int) else float(v) for v in vals]
        k = self.r.random()
        return self.own(list(vals) if k < .5 else np.array(vals))

    def ch(self, *a):
        return self.r.choice(a)

    def flag(self, p=.5):
        return self.r.random() < p

    def pos(self, ax, grid=.3):
        ax = np.asarray(ax)
        if len(ax) == 0:
            return 0.
        if self.flag(grid):
            return float(self.r.choice(list(ax)))
        return float(np.min(ax) + self.r.random()*(np.max(ax) - np.min(ax)))

    def iv(self, ax, allow_none=.25):
        """An interval over an axis."""
        if self.flag(allow_none):
            return None
        ax = np.asarray(ax)
        if len(ax) == 0:
            return self.seq([0., 1.])
        a, b = sorted([self.pos(ax), self.pos(ax)])
        if self.flag(.6):
            w = (np.max(ax) - np.min(ax))
            a, b = a - .5*w*self.r.random(), b + .5*w*self.r.random()
        return self.seq([a, b])

    def ivi(self, n, allow_none=.25):
        if self.flag(allow_none) or n < 2:
            return None
        a = self.r.randrange(n - 1)
        b = self.r.randrange(a, n)
        return self.seq([a, max(b, 1)])

    def unitlike(self, *us):
        return self.ch(*us)

    def num(self):
        return self.ch(2, 3, -1, .5, 1.5, -2., 10.)

    def posnum(self):
        return self.ch(2, 3, .5, 1.5, 10.)

    def scale(self):
        k = self.r.random()
        if k < .25:
            return None
        if k < .6:
            return self.num()
        return self.own(make_unit(self.ch("m", "s", "1/s", ""))
                        * self.ch(2., .5, 1., 10.))

    def seed(self):
        return self.r.randrange(1 << 30)


# -------------------------------------------------------------- helpers -----
def like(o, e):
    """Another object of the same kind on the same support."""
    c = o.copy()
    a, b = e.ch(2., -1., .5), e.ch(0., 1., -3.)
    if isinstance(o, core.ScalarField):
        c.values = np.array(o.values)*a + b
    elif isinstance(o, core.VectorField):
        c.comp_x = np.array(o.comp_x)*a + b
        c.comp_y = np.array(o.comp_y)*a - b
    elif isinstance(o, core.Profile):
        c.y = np.array(o.y)*a + b
    return e.own(c)


def other_support(o, e):
    """Another field of the same kind whose axes overlap."""
    c = like(o, e)
    e.owned.pop()
    nx, ny = c.shape
    if nx > 3 and ny > 3:
        c.crop(intervx=[1, nx - 1], intervy=[0, ny - 2], ind=True,
               inplace=True)
    return e.own(c)


def operand(o, e):
    k = e.r.random()
    if k < .3:
        return e.num()
    if k < .45:
        return e.own(e.ch(2., 1.)*o.unit_values)
    if k < .6 and isinstance(o, core.Field):
        return e.own(np.random.RandomState(e.seed() % (1 << 31)).uniform(
            1, 2, o.shape))
    if k < .9:
        return like(o, e)
    return other_support(o, e)


def factor(o, e):
    k = e.r.random()
    if k < .4:
        return e.num()
    if k < .6:
        return e.own(e.ch(2., .5)*make_unit(e.ch("m", "s", "1/s")))
    if k < .8 and isinstance(o, core.Field):
        return e.own(np.random.RandomState(e.seed() % (1 << 31)).uniform(
            1, 2, o.shape))
    if k < .97:
        return like(o, e)
    return other_support(o, e)


def pts_on(o, e, n=None):
    n = e.r.randint(1, 3) if n is None else n
    return [[e.pos(o.axe_x), e.pos(o.axe_y)] for _ in range(n)]


def traj_on(tf, e):
    """Points whose v are times of the temporal fields."""
    n = len(tf.times)
    xy = [[e.pos(tf.axe_x, 0), e.pos(tf.axe_y, 0)] for _ in range(n)]
    return e.own(core.Points(np.array(xy), v=np.array(tf.times),
                             unit_x=tf.unit_x, unit_y=tf.unit_y,
                             unit_v=tf.unit_times))


FIELDS = "SF VF"
TF = "TSF TVF"
SPF = "SSF SVF"


def both(kinds, name, maker, default=False, weight=1.):
    """An operation with an inplace argument: a returning and an altering
    version, with the same arguments for the same seed."""
    def new(o, e):
        m, a, k = maker(o, e)
        return lambda: getattr(o, m)(*a, inplace=False, **k)

    def inp(o, e):
        m, a, k = maker(o, e)
        return lambda: getattr(o, m)(*a, inplace=True, **k)
    for k in kinds.split():
        OPS["%s.%s" % (k, name)] = Op("%s.%s" % (k, name), k, "n", new,
                                      twin="%s.%s!" % (k, name),
                                      weight=weight)
        OPS["%s.%s!" % (k, name)] = Op("%s.%s!" % (k, name), k, "i", inp,
                                       twin="%s.%s" % (k, name),
                                       weight=weight)


# ------------------------------------------------------ Field, SF and VF ----
@op("SF VF PTS OPTS PROF TSF TVF SSF SVF TPTS CP", "n", "copy")
def _(o, e):
    return lambda: o.copy()


@op("SF VF", "q", "get_indice_on_axe")
def _(o, e):
    d = e.ch(1, 2)
    v = e.pos(o.axe_x if d == 1 else o.axe_y)
    k = e.ch("bounds", "nearest", "decimal")
    return lambda: o.get_indice_on_axe(d, v, kind=k)


@op("SF VF", "q", "get_points_around")
def _(o, e):
    c = e.seq(pts_on(o, e, 1)[0])
    return lambda: o.get_points_around(c, 1.5*abs(o.dx))


@op("SF VF TSF TVF", "q", "axes")
def _(o, e):
    return lambda: (o.dx, o.dy, o.shape, o.unit_x.asNumber(),
                    o.axe_x.mean(), o.axe_y.mean())


@op("SF", "q", "stats")
def _(o, e):
    return lambda: (o.min, o.max, o.mean, o.median)


@op("VF", "q", "stats")
def _(o, e):
    return lambda: (o.min, o.max)


@op("SF VF PROF", "q", "get_props")
def _(o, e):
    return lambda: o.get_props()


@op("SF VF TSF TVF SSF SVF", "q", "iterate")
def _(o, e):
    return lambda: [1 for _ in o]


@op("SF", "n", "mask_as_sf")
def _(o, e):
    return lambda: o.mask_as_sf


@op("VF", "n", "as_sf")
def _(o, e):
    return lambda: [o.comp_x_as_sf, o.comp_y_as_sf, o.mask_as_sf,
                    o.magnitude_as_sf, o.theta_as_sf]


@op("VF", "q", "derived")
def _(o, e):
    return lambda: [o.magnitude, o.theta]


@op("SF VF PROF", "q", "eq")
def _(o, e):
    c = like(o, e)
    return lambda: (o == c, o == o)


@op("SF VF PROF TSF TVF SSF SVF", "n", "neg")
def _(o, e):
    return lambda: -o


@op("SF VF PROF", "n", "add", 2)
def _(o, e):
    if isinstance(o, core.Profile):
        c = e.num() if e.flag(.3) else like(o, e)
    else:
        c = operand(o, e)
    if isinstance(c, np.ndarray) or e.flag(.7):
        return lambda: o + c
    return lambda: c + o


@op("SF VF PROF", "n", "sub", 2)
def _(o, e):
    if isinstance(o, core.Profile):
        c = e.num() if e.flag(.3) else like(o, e)
    else:
        c = operand(o, e)
    if isinstance(c, np.ndarray) or e.flag(.7):
        return lambda: o - c
    return lambda: c - o


@op("SF VF PROF", "n", "mul", 2)
def _(o, e):
    c = (e.num() if e.flag(.3) else like(o, e)) \
        if isinstance(o, core.Profile) else factor(o, e)
    if isinstance(c, np.ndarray) or e.flag(.7):
        return lambda: o * c
    return lambda: c * o


@op("SF VF PROF", "n", "div", 2)
def _(o, e):
    c = (e.num() if e.flag(.3) else like(o, e)) \
        if isinstance(o, core.Profile) else factor(o, e)
    if isinstance(c, np.ndarray) or e.flag(.8):
        return lambda: o / c
    return lambda: c / o


@op("SF VF", "n", "iadd")
def _(o, e):
    c = like(o, e)

    def run():
        x = o
        x += c
        return x
    return run


@op("SF VF PROF", "n", "pow")
def _(o, e):
    n = e.ch(2, 3, 1, .5)
    return lambda: o**n


@op("SF VF", "n", "abs")
def _(o, e):
    return lambda: abs(o)


@op("SF VF", "q", "get_value")
def _(o, e):
    ind = e.flag(.3)
    if ind:
        x, y = e.r.randrange(len(o.axe_x)), e.r.randrange(len(o.axe_y))
    else:
        x, y = pts_on(o, e, 1)[0]
    u = e.flag()
    return lambda: o.get_value(x, y, ind=ind, unit=u)


@op("SF", "n", "get_zones_centers")
def _(o, e):
    rel = e.flag(.7)
    if rel:
        b = e.seq(e.ch([.5, 1.], [.75, 1.], [-1., -.3], [0., .6]))
    else:
        m = float(np.mean(o.values))
        b = e.seq([m, float(np.max(o.values))])
    k = e.ch("extremum", "center", "ponderated")
    if e.flag(.2):
        return lambda: o.get_zones_centers(kind=k)
    return lambda: o.get_zones_centers(bornes=b, rel=rel, kind=k)


@op("SF", "q", "get_nearest_extrema")
def _(o, e):
    p = e.own(pts_on(o, e))
    if e.flag():
        p = e.own(np.array(p))
    x = e.ch("max", "min")
    return lambda: o.get_nearest_extrema(p, extrema=x)


@op("SF", "n", "get_profile")
def _(o, e):
    d = e.ch("x", "y")
    ax = o.axe_x if d == "x" else o.axe_y
    k = e.ch(0, 1, 2)
    it = e.ch("linear", "nearest")
    if k == 0:
        p = e.pos(ax)
        return lambda: o.get_profile(d, p, interp=it)
    if k == 1:
        i = e.r.randrange(len(ax))
        return lambda: o.get_profile(d, i, ind=True, interp=it)
    p = e.seq(sorted([e.pos(ax), e.pos(ax)]))
    return lambda: o.get_profile(d, p, interp=it)


@op("VF", "n", "get_profile")
def _(o, e):
    d = e.ch("x", "y")
    ax = o.axe_x if d == "x" else o.axe_y
    c = e.ch("vx", "vy")
    it = e.ch("linear", "nearest")
    p = e.pos(ax)
    if e.flag(.3):
        p = e.seq(sorted([e.pos(ax), e.pos(ax)]))
    return lambda: o.get_profile(c, d, p, interp=it)


@op("SF", "n", "get_histogram")
def _(o, e):
    c, n = e.flag(), e.flag()
    b = e.ch(None, 5, 10)
    return lambda: o.get_histogram(cum=c, normalized=n, bins=b)


@op("SF", "n", "get_spatial_autocorrelation")
def _(o, e):
    d = e.ch("x", "y")
    w = e.ch(None, 3)
    return lambda: o.get_spatial_autocorrelation(d, window_len=w)


@op("SF", "n", "get_spatial_spectrum")
def _(o, e):
    d = e.ch("x", "y")
    ix, iy = e.iv(o.axe_x), e.iv(o.axe_y)
    f = e.ch("linear", 0., "nearest")
    s = e.ch("base", "spectrum", "density")
    return lambda: o.get_spatial_spectrum(d, intervx=ix, intervy=iy,
                                          scaling=s, fill=f)


@op("SF VF", "q", "get_norm")
def _(o, e):
    n = e.ch(1, 2, np.inf)
    k = e.ch("perpoint", None, False, True)
    return lambda: o.get_norm(norm=n, normalized=k)


@op("SF", "q", "get_interpolator")
def _(o, e):
    x, y = pts_on(o, e, 1)[0]
    k = e.ch("linear", "nearest")

    def run():
        f = o.get_interpolator(interp=k)
        return f(x, y) if callable(f) else None
    return run


@op("SF", "q", "integrate_over_line")
def _(o, e):
    d = e.ch("x", "y")
    ax = o.axe_x if d == "x" else o.axe_y
    iv = e.seq(sorted([e.pos(ax), e.pos(ax)]))
    return lambda: o.integrate_over_line(d, iv)


@op("SF", "q", "integrate_over_surface")
def _(o, e):
    ix, iy = e.iv(o.axe_x), e.iv(o.axe_y)
    return lambda: o.integrate_over_surface(ix, iy)


@op("SF", "n", "export_to_scatter")
def _(o, e):
    m = None
    if e.flag():
        m = e.own(np.random.RandomState(e.seed() % (1 << 31)).uniform(
            size=o.shape) < .3)
    return lambda: o.export_to_scatter(mask=m)


def _scale(o, e):
    a = {"scalex": e.scale(), "scaley": e.scale(), "scalev": e.scale()}
    return "scale", (), a


both("SF VF SSF SVF", "scale", _scale)


def _scale_t(o, e):
    a = {"scalex": e.scale(), "scaley": e.scale(), "scalev": e.scale(),
         "scalet": e.ch(None, 2, .5)}
    if e.flag(.3):
        a["scalet"] = e.own(2.*make_unit("s"))
    return "scale", (), a


both("TSF TVF", "scale", _scale_t)


def _scale_tp(o, e):
    m, a, k = _scale_t(o, e)
    return m, a, {n: 1. if v is None else v for n, v in k.items()}


both("TPTS", "scale", _scale_tp)


def _scale_p(o, e):
    a = {"scalex": e.scale(), "scaley": e.scale(), "scalev": e.scale()}
    a = {k: 1. if v is None else v for k, v in a.items()}
    return "scale", (), a


both("PTS OPTS CP", "scale", _scale_p)


def _scale_prof(o, e):
    a = {"scalex": e.scale(), "scaley": e.scale()}
    a = {k: 1. if v is None else v for k, v in a.items()}
    return "scale", (), a


both("PROF", "scale", _scale_prof)


def _rotate(o, e):
    return "rotate", (e.ch(0, 90, 180, 270, -90, 450),), {}


both("SF VF TSF TVF SSF SVF", "rotate", _rotate)


def _rotate_p(o, e):
    return "rotate", (e.ch(0, 90, 30, 45., -120),), {}


both("PTS OPTS", "rotate", _rotate_p)


def _crop(o, e):
    if e.flag(.35):
        return "crop", (), {"intervx": e.ivi(len(o.axe_x)),
                            "intervy": e.ivi(len(o.axe_y)), "ind": True}
    return "crop", (), {"intervx": e.iv(o.axe_x), "intervy": e.iv(o.axe_y)}


both("SF VF", "crop", _crop, weight=2)


def _crop_t(o, e):
    if e.flag(.35):
        k = {"intervx": e.ivi(len(o.axe_x)), "intervy": e.ivi(len(o.axe_y)),
             "intervt": e.ivi(len(o.times)), "ind": True}
    else:
        k = {"intervx": e.iv(o.axe_x), "intervy": e.iv(o.axe_y),
             "intervt": e.iv(o.times)}
    return "crop", (), k


both("TSF TVF", "crop", _crop_t, weight=2)


def _xy(o):
    return np.asarray(o.xy).reshape((-1, 2))


def _crop_p(o, e):
    xy = _xy(o)
    k = {"intervx": e.iv(xy[:, 0]), "intervy": e.iv(xy[:, 1])}
    if len(np.atleast_1d(o.v)):
        k["intervv"] = e.iv(o.v)
    return "crop", (), k


both("PTS OPTS", "crop", _crop_p)


def _crop_tp(o, e):
    return "crop", (), {"intervx": e.iv([-5, 5]), "intervy": e.iv([-5, 5]),
                        "intervt": e.iv(o.times)}


both("TPTS CP", "crop", _crop_tp)


def _crop_prof(o, e):
    if e.flag(.3):
        return "crop", (), {"intervx": e.ivi(len(o.x)), "ind": True}
    return "crop", (), {"intervx": e.iv(o.x), "intervy": e.iv(o.y)}


both("PROF", "crop", _crop_prof)


def _extend(o, e):
    k = {"nmb_" + s: e.ch(0, 0, 1, 2) for s in ("left", "right", "up",
                                                "down")}
    if isinstance(o, core.ScalarField) and e.flag(.3):
        k["value"] = e.num()
    return "extend", (), k


both("SF VF TSF TVF", "extend", _extend)


def _mirror(o, e):
    d = e.ch("x", "y")
    ax = o.axe_x if d in ("x", 1) else o.axe_y
    p = float(e.ch(ax[0], ax[-1], ax[0], ax[-1], e.pos(ax)))
    if e.flag(.2):
        p += e.ch(-1, 1)*.3*float(ax[1] - ax[0])
    k = {"interp": e.ch(None, None, "linear", "value", "nearest")}
    if e.flag(.5):
        k["inds_to_mirror"] = e.ch(1, 2)
    if e.flag(.3):
        k["mir_coef"] = e.num()
    if isinstance(o, (core.VectorField, core.TemporalVectorFields)):
        if e.flag(.3):
            k["mir_coef"] = e.own([1., -1.])
        k["value"] = e.seq([0., 1.])
    elif isinstance(o, core.ScalarField):
        k["value"] = e.ch(0, 1)
    return "mirroring", (d, p), k


both("SF VF TSF TVF", "mirroring", _mirror)


def _cmb(o, e):
    return "crop_masked_border", (), {"hard": e.flag(.4)}


both("SF VF TSF TVF", "crop_masked_border", _cmb)
both("PROF", "crop_masked_border", lambda o, e: ("crop_masked_border", (),
                                                 {}))


def _fill(o, e):
    k = {"kind": e.ch("linear", "nearest", "value", "cubic"),
         "reduce_tri": e.flag(.7), "crop": e.flag(.3)}
    if isinstance(o, core.VectorField):
        k["value"] = e.seq([1., -2.])
    else:
        k["value"] = e.num()
    return "fill", (), k


both("SF VF", "fill", _fill, weight=2)


def _fill_t(o, e):
    k = {"tof": e.ch("spatial", "temporal"), "crop": e.flag(.3),
         "kind": e.ch("linear", "nearest", "value")}
    k["value"] = e.seq([1., -2.]) if isinstance(
        o, core.TemporalVectorFields) else e.num()
    return "fill", (), k


both("TSF TVF", "fill", _fill_t)


def _fill_prof(o, e):
    return "fill", (), {"kind": e.ch("slinear", "linear", "nearest", "value"),
                        "fill_value": e.num(), "crop": e.flag(.3)}


both("PROF", "fill", _fill_prof)


def _smooth(o, e):
    return "smooth", (), {"tos": e.ch("uniform", "gaussian"),
                          "size": e.ch(None, 2, 3)}


both("SF VF TSF TVF SSF SVF PTS OPTS PROF TPTS", "smooth", _smooth)


def _reduce(o, e):
    return "reduce_spatial_resolution", (e.ch(1, 2, 2, 3),), {}


both("SF VF TSF TVF", "reduce_spatial_resolution", _reduce)


@op("SF VF TSF TVF", "i", "make_evenly_spaced!")
def _(o, e):
    r = e.ch(1, 2)
    return lambda: o.make_evenly_spaced(res=r)


@op("SF VF TSF TVF", "i", "change_unit!")
def _(o, e):
    a = e.ch("x", "y", "values")
    cur = {"x": o.unit_x, "y": o.unit_y,
           "values": getattr(o, "unit_values", None)}[a]
    u = _same_dim(e, cur)
    return lambda: o.change_unit(a, u)


def _same_dim(e, cur):
    s = cur.strUnit()
    for fam in (["m", "mm", "cm"], ["m/s", "mm/s", "cm/s"], ["s", "ms"]):
        for f in fam:
            if make_unit(f).strUnit() == s:
                return e.ch(*fam)
    return e.own(cur) if e.flag() else ""


@op("SF VF TSF TVF PTS OPTS SSF SVF CP", "i", "set_origin!")
def _(o, e):
    x, y = e.ch(None, 1., -2), e.ch(None, .5, 3)
    return lambda: o.set_origin(x, y)


@op("SF VF", "i", "change_dtype!")
def _(o, e):
    t = e.ch(float, np.float64, np.float32)
    return lambda: o.change_dtype(t)


@op("SF", "i", "set_values!")
def _(o, e):
    v = e.own(np.random.RandomState(e.seed() % (1 << 31)).normal(
        size=o.shape))

    def run():
        o.values = v
    return run


@op("SF VF", "i", "set_mask!")
def _(o, e):
    m = e.own(np.random.RandomState(e.seed() % (1 << 31)).uniform(
        size=o.shape) < .2)

    def run():
        o.mask = m
    return run


@op("VF", "i", "set_comp!")
def _(o, e):
    v = e.own(np.random.RandomState(e.seed() % (1 << 31)).normal(
        size=o.shape))
    w = e.own(v + 1.)

    def run():
        o.comp_x = v
        o.comp_y = w
    return run


@op("SF VF", "i", "set_axes!")
def _(o, e):
    x = e.seq(np.asarray(o.axe_x)*2.)
    y = e.seq(np.asarray(o.axe_y) + 1.)

    def run():
        o.axe_x = x
        o.axe_y = y
    return run


@op("SF", "i", "import_from_arrays!")
def _(o, e):
    rs = np.random.RandomState(e.seed() % (1 << 31))
    nx, ny = o.shape
    x, y = e.own(np.arange(nx)*1.), e.own(np.arange(ny)*2.)
    v = e.own(rs.normal(size=(nx, ny)))
    m = e.own(rs.uniform(size=(nx, ny)) < .2)
    if e.flag(.3):
        v[0, 0] = np.nan
    mk = e.ch(None, False, m)
    ux = o.unit_x
    return lambda: o.import_from_arrays(x, y, v, mask=mk, unit_x=ux,
                                        unit_y="m", unit_values="K")


@op("VF", "i", "import_from_arrays!")
def _(o, e):
    rs = np.random.RandomState(e.seed() % (1 << 31))
    nx, ny = o.shape
    x, y = e.own(np.arange(nx)*1.), e.own(np.arange(ny)*2.)
    v = e.own(rs.normal(size=(nx, ny)))
    w = e.own(rs.normal(size=(nx, ny)))
    m = e.own(rs.uniform(size=(nx, ny)) < .2)
    mk = e.ch(False, m)
    return lambda: o.import_from_arrays(x, y, v, w, mask=mk, unit_x="m",
                                        unit_y="m", unit_values="m/s")


# ------------------------------------------- field treatment, criterions ----
@op("SF VF", "n", "ft.get_gradients")
def _(o, e):
    r = e.flag(.3)
    return lambda: ft.get_gradients(o, raw=r)


@op("VF", "n", "ft.jacobian")
def _(o, e):
    r = e.flag(.3)
    return lambda: ft.get_jacobian_eigenproperties(o, raw=r)


@op("VF", "n", "ft.misc")
def _(o, e):
    f = e.ch("get_Kenwright_field", "get_track_field", "get_divergence",
             "get_shear_stress", "get_swirling_vector")
    return lambda: getattr(ft, f)(o)


@op("SF VF", "n", "ft.get_grad_field")
def _(o, e):
    d = e.ch("x", "y")
    return lambda: ft.get_grad_field(o, direction=d)


@op("VF", "n", "ft.streamlines", .5)
def _(o, e):
    p = e.own(pts_on(o, e, 1)[0])
    if e.flag():
        p = e.own(np.array(p))
    f = e.ch("get_streamlines", "get_fieldlines", "get_tracklines",
             "get_streamlines_fast")
    r = e.flag()
    kw = {} if f == "get_streamlines_fast" else {"max_steps": 60}
    return lambda: getattr(ft, f)(o, p, reverse=r, **kw)


@op("SF VF", "n", "ft.extrapolate_until_wall")
def _(o, e):
    d = e.ch("x", "y")
    ax = o.axe_x if d == "x" else o.axe_y
    p = float(ax[0] - 1.5*(ax[1] - ax[0])) if e.flag() else float(
        ax[-1] + 1.5*(ax[1] - ax[0]))
    return lambda: ft.extrapolate_until_wall(o, direction=d, position=p)


@op("SF", "n", "ft.reconstruct")
def _(o, e):
    c = like(o, e)
    return lambda: ft.reconstruct_from_gradients(o, c, maxiter=2)


CRIT = ["get_divergence", "get_vorticity", "get_swirling_strength",
        "get_improved_swirling_strength", "get_q_criterion",
        "get_Nk_criterion", "get_delta_criterion", "get_lambda2",
        "get_residual_vorticity", "get_shear_vorticity",
        "get_stokes_vorticity"]
NLCRIT = ["get_angle_deviation", "get_gamma", "get_NL_residual_vorticity",
          "get_kappa", "get_iota", "get_enstrophy"]


@op("VF", "n", "vc.criterion", 3)
def _(o, e):
    f = getattr(vc, e.ch(*CRIT), None)
    r = e.flag(.3)
    return lambda: f(o, raw=r)


@op("VF", "n", "vc.non_local", 2)
def _(o, e):
    n = e.ch(*NLCRIT)
    f = getattr(vc, n)
    k = {"raw": e.flag(.3), "radius": e.ch(1, 2), "ind": True}
    if n == "get_iota":
        k = {"raw": k["raw"]}
    if e.flag(.4):
        k["mask"] = e.own(np.random.RandomState(e.seed() % (1 << 31)).uniform(
            size=o.shape) < .2)
    return lambda: f(o, **k)


@op("VF", "q", "vp.vortex")
def _(o, e):
    c = e.seq(pts_on(o, e, 1)[0])
    f = e.ch("get_vortex_radius", "get_vortex_circulation",
             "get_vortex_property")
    return lambda: getattr(vp, f)(o, c)


@op("VF TVF", "n", "vod.get_critical_points")
def _(o, e):
    k = e.ch("pbi", "pbi_cell", "gam_vort", "pbi_crit")
    kw = {}
    if e.flag(.3):
        kw["smoothing_size"] = e.ch(1, 2)
    if e.flag(.3):
        kw["mirroring"] = e.own([["x", float(o.axe_x[0])]])
        kw["mirror_interp"] = e.ch("linear", "value", "nearest")
    if isinstance(o, core.VectorField):
        kw["time"] = 1.
        kw["unit_time"] = "s"
    return lambda: vod.get_critical_points(o, kind=k, window_size=2, **kw)


@op("VF TVF", "n", "vod.get_vortex_position")
def _(o, e):
    t = e.ch(.5, .2)
    return lambda: vod.get_vortex_position(o, threshold=t)


@op("SF PROF VF", "n", "bl.thickness")
def _(o, e):
    f = e.ch("get_bl_thickness", "get_displ_thickness",
             "get_momentum_thickness", "get_shape_factor",
             "get_clauser_thickness", "get_shear_stress")
    return lambda: getattr(bl, f)(o)


@op("PROF", "n", "bl.get_shear_stress")
def _(o, e):
    kw = {"method": e.ch("simple", "simple", "wall_law_lin", "wall_law_log")}
    if kw["method"] == "simple":
        kw["respace"] = e.flag()
    return lambda: bl.get_shear_stress(o, **kw)


# -------------------------------------------------------------- Points ------
@op("PTS OPTS", "q", "read")
def _(o, e):
    return lambda: (len(o), [1 for _ in o], o.name, o.unit_v)


@op("PTS OPTS CP", "q", "eq")
def _(o, e):
    c = e.own(o.copy())
    return lambda: (o == c)


@op("PTS OPTS", "n", "add_points_", 2)
def _(o, e):
    c = o.copy()
    if e.flag():
        for a in "xy":
            try:
                c.change_unit(a, _same_dim(e, getattr(c, "unit_" + a)))
            except Exception:
                pass
    e.own(c)
    return lambda: o + c


@op("PTS OPTS", "n", "get_points_density")
def _(o, e):
    f = e.ch("normalized", "ponderated", "concentration")
    r = e.flag(.3)
    return lambda: o.get_points_density(resolution=6, output_format=f, raw=r)


@op("PTS OPTS", "n", "get_points_density2")
def _(o, e):
    p = e.flag(.3)
    res = e.ch(3, 5)
    return lambda: o.get_points_density2(res, ponderated=p)


@op("PTS OPTS", "n", "get_envelope")
def _(o, e):
    return lambda: o.get_envelope()


@op("PTS OPTS", "n", "get_velocity")
def _(o, e):
    i, s = e.ch(1, 2), e.ch(0, 1)
    x = e.ch("time", "x", "y")
    return lambda: o.get_velocity(incr=i, smooth=s, xaxis=x)


@op("PTS OPTS", "n", "get_evolution_on_sf")
def _(o, e):
    s = e.own(objs.build({"kind": "SF", "nx": 6, "ny": 5, "seed": e.seed(),
                          "mask": "none", "even": True,
                          "ux": "", "uy": "", "uv": "m"}))
    s.axe_x = np.linspace(-6, 6, 6)
    s.axe_y = np.linspace(-6, 6, 5)
    s.unit_x, s.unit_y = o.unit_x, o.unit_y
    a = e.own(list(range(len(_xy(o))))) if e.flag(.3) else None
    return lambda: o.get_evolution_on_sf(s, axe_x=a)


@op("PTS OPTS", "n", "fit")
def _(o, e):
    k = e.ch("polynomial", "ellipse")
    n = e.ch(1, 2)
    s = e.flag(.3)
    return lambda: o.fit(kind=k, order=n, simplify=s)


@op("PTS", "i", "add!")
def _(o, e):
    p = e.seq([1.5, -2.])
    v = 3. if len(np.atleast_1d(o.v)) else None
    return lambda: o.add(p, v=v)


@op("OPTS", "i", "add!")
def _(o, e):
    p = e.seq([1.5, -2.])
    r = e.own(np.array([[1., 0.], [0., 1.]]))
    v = 3. if len(np.atleast_1d(o.v)) else None
    return lambda: o.add(p, orientations=r, v=v)


@op("PTS OPTS", "i", "remove!")
def _(o, e):
    n = len(_xy(o))
    i = e.r.randrange(max(n, 1))
    if e.flag(.3) and n > 2:
        i = e.own(sorted(e.r.sample(range(n), 2)))
    return lambda: o.remove(i)


@op("PTS OPTS", "i", "change_unit!")
def _(o, e):
    a = e.ch("x", "y", "v")
    u = _same_dim(e, getattr(o, "unit_" + a))
    return lambda: o.change_unit(a, u)


@op("PTS OPTS", "i", "set_xy!")
def _(o, e):
    xy = e.own(np.array(_xy(o))*2. + 1)
    if e.flag(.3):
        xy = e.own(xy.tolist())

    def run():
        o.xy = xy
    return run


@op("PTS OPTS", "i", "set_v!")
def _(o, e):
    v = e.seq(np.arange(len(_xy(o)))*1.)

    def run():
        o.v = v
    return run


@op("PTS OPTS", "i", "cut!")
def _(o, e):
    a, b = e.iv([-5, 5]), e.iv([-5, 5])
    return lambda: o.cut(intervx=a, intervy=b)


@op("PTS", "n", "make")
def _(o, e):
    xy = e.own(np.array([[1., 2.], [3., 4.], [0., 1.]]))
    v = e.own(np.array([1., 2., 3.]))
    return lambda: core.Points(xy, v=v)


@op("PTS", "n", "import_from_Points")
def _(o, e):
    r = e.own(np.ones((len(_xy(o)), 2, 2)))

    def run():
        p = core.OrientedPoints()
        p.import_from_Points(o, r)
        return p
    return run


both("PTS OPTS", "remove_doublons", lambda o, e: (
    "remove_doublons", (), {"method": e.ch("average", "min", "max")}))
both("PROF", "remove_doublons", lambda o, e: (
    "remove_doublons", (), {"method": e.ch("average", "min", "max")}))
both("PTS OPTS", "sort", lambda o, e: (
    "sort", (), {"ref": e.ch("x", "y", "v")}))
both("PTS OPTS", "order_on_line", lambda o, e: ("order_on_line", (), {}))
both("PTS OPTS PROF", "remove_nans", lambda o, e: ("remove_nans", (), {}))
both("PTS OPTS PROF", "augment_resolution", lambda o, e: (
    "augment_resolution", (), {"fact": e.ch(2, 3),
                               "interp": e.ch("linear", "cubic")}))


@op("PTS OPTS", "n", "reverse")
def _(o, e):
    return lambda: o.reverse()


@op("PTS OPTS", "n", "decompose")
def _(o, e):
    return lambda: o.decompose()


@op("PTS OPTS", "n", "export_to_profile")
def _(o, e):
    x, y = e.ch("x", "y", "v"), e.ch("x", "y", "v")
    return lambda: o.export_to_profile(axe_x=x, axe_y=y)


@op("OPTS", "n", "get_streamlines", .5)
def _(o, e):
    v = e.own(objs.build({"kind": "VF", "nx": 6, "ny": 5, "seed": e.seed(),
                          "mask": "none", "even": True,
                          "ux": "", "uy": "", "uv": "m"}))
    v.axe_x = np.linspace(-6, 6, 6)
    v.axe_y = np.linspace(-6, 6, 5)
    f = e.ch("get_streamlines", "get_streamlines_from_orientations")
    return lambda: getattr(o, f)(v)


@op("OPTS", "i", "set_orientations!")
def _(o, e):
    r = e.own(np.ones((len(_xy(o)), 2, 2)))

    def run():
        o.orientations = r
    return run


# ------------------------------------------------------------- Profile ------
@op("PROF", "q", "stats")
def _(o, e):
    return lambda: (o.min, o.max, o.mean, len(o))


@op("PROF", "q", "get_interpolator")
def _(o, e):
    x = e.pos(o.x)
    return lambda: o.get_interpolator()(x)


@op("PROF", "q", "get_interpolated_values")
def _(o, e):
    if e.flag():
        k = {"x": e.pos(o.x) if e.flag() else e.seq([e.pos(o.x)
                                                      for _ in range(2)])}
    else:
        k = {"y": e.pos(o.y)}
    if e.flag(.2):
        k = {"x": e.r.randrange(max(1, len(o.x))), "ind": True}
    return lambda: o.get_interpolated_values(**k)


@op("PROF", "q", "get_value_position")
def _(o, e):
    v = e.pos(o.y)
    i = e.flag(.3)
    return lambda: o.get_value_position(v, ind=i)


@op("PROF", "q", "get_integral")
def _(o, e):
    return lambda: o.get_integral()


@op("PROF", "n", "get_gradient")
def _(o, e):
    p = e.ch(None, 0)
    p = e.pos(o.x) if p == 0 else None
    return lambda: o.get_gradient(position=p)


@op("PROF", "n", "get_spectrum")
def _(o, e):
    w = e.iv(o.x, .5)
    s = e.ch("base", "spectrum", "density")
    f = e.ch("linear", "slinear", "value")
    return lambda: o.get_spectrum(wanted_x=w, scaling=s, fill=f,
                                  mask_error=False)


@op("PROF", "n", "get_wavelet_transform")
def _(o, e):
    w = e.seq([1., 2., 3.]) if e.flag() else None
    return lambda: o.get_wavelet_transform(widths=w)


@op("PROF", "n", "get_pdf")
def _(o, e):
    r = e.flag(.3)
    return lambda: o.get_pdf(resolution=8, raw=r)


@op("PROF", "n", "get_distribution")
def _(o, e):
    f = e.ch("normalized", "ponderated", "concentration", "percentage")
    return lambda: o.get_distribution(output_format=f, resolution=8)


@op("PROF", "n", "get_auto_correlation")
def _(o, e):
    r = e.flag(.3)
    return lambda: o.get_auto_correlation(2, raw=r)


def _lin(x, a, b):
    return a*x + b


@op("PROF", "n", "get_fitting")
def _(o, e):
    p0 = e.own([1., 0.]) if e.flag() else None
    return lambda: o.get_fitting(_lin, p0=p0, output_param=True)


@op("PROF", "q", "get_extrema_position")
def _(o, e):
    s, i = e.ch(None, 1, 2), e.flag(.3)
    return lambda: o.get_extrema_position(smoothing=s, ind=i)


@op("PROF", "n", "convolutions")
def _(o, e):
    c = like(o, e)
    f = e.ch("get_convolution", "get_dephasage",
             "get_convolution_of_difference")
    return lambda: getattr(o, f)(c)


@op("PROF", "n", "spectral_filtering")
def _(o, e):
    k = e.ch({"fmin": .2}, {"fmax": .3}, {"fmin": .1, "fmax": .3})
    return lambda: o.spectral_filtering(**k)


@op("PROF", "i", "add_point!")
def _(o, e):
    return lambda: o.add_point(.5, 1.)


@op("PROF", "i", "add_points!")
def _(o, e):
    c = e.own(o.copy())
    return lambda: o.add_points(c)


@op("PROF", "i", "remove_point!")
def _(o, e):
    i = e.r.randrange(max(1, len(o.x)))
    return lambda: o.remove_point(i)


@op("PROF", "i", "change_unit!")
def _(o, e):
    a = e.ch("x", "y")
    u = _same_dim(e, getattr(o, "unit_" + a))
    return lambda: o.change_unit(a, u)


@op("PROF", "i", "set!")
def _(o, e):
    x = e.own(np.array(o.x)*2.)
    y = e.own(np.array(o.y) + 1.)
    m = e.own(np.zeros(len(x), dtype=bool))

    def run():
        o.x = x
        o.y = y
        o.mask = m
    return run


@op("PROF", "n", "make")
def _(o, e):
    x, y = e.own(np.arange(4.)), e.own(np.arange(4.)**2)
    m = e.own(np.array([False, True, False, False]))
    return lambda: core.Profile(x, y, mask=m)


both("PROF", "rotate", lambda o, e: ("rotate", (e.ch(0, 30, 90),), {}))
both("PROF", "evenly_space", lambda o, e: (
    "evenly_space", (), {"dx": e.ch(None, .4)}))
both("PROF", "remove_marginal_values", lambda o, e: (
    "remove_marginal_values", (), {"fact": e.ch(1, 2, 5)}))
both("PROF", "remove_local_marginal_values", lambda o, e: (
    "remove_local_marginal_values", (), {"fact": e.ch(1, 2), "neighb": 4}))


# ----------------------------------------------------- TemporalFields ------
@op("TSF TVF", "q", "read")
def _(o, e):
    return lambda: (len(o), o.dt, o.mask, o.mask_cum, o.unit_values)


@op("TSF TVF", "n", "masks_as_sf")
def _(o, e):
    return lambda: [o.mask_as_sf, o.mask_cum_as_sf]


@op("TVF", "q", "derived")
def _(o, e):
    return lambda: [np.array(o.Vx), np.array(o.Vy), np.array(o.magnitude),
                    np.array(o.theta)]


@op("TVF SVF", "n", "as_sf")
def _(o, e):
    a = e.ch("Vx_as_sf", "Vy_as_sf", "magnitude_as_sf", "theta_as_sf")
    return lambda: getattr(o, a)


@op("TSF SSF", "n", "as_sf")
def _(o, e):
    return lambda: o.values_as_sf


@op("TSF TVF", "q", "eq")
def _(o, e):
    c = e.own(o.copy())
    return lambda: o == c


@op("TSF TVF", "n", "arith", 3)
def _(o, e):
    k = e.ch("add", "sub", "mul", "div", "rmul", "pow")
    c = e.num()
    if k in ("add", "sub"):
        c = e.own(o.copy())
        if e.flag(.4):
            c = e.own(o.fields[0].copy())
    elif k in ("mul", "rmul", "div") and e.flag(.5):
        c = e.own(2.*make_unit("m"))
    if k == "add":
        return lambda: o + c
    if k == "sub":
        return lambda: o - c
    if k == "mul":
        return lambda: o*c
    if k == "rmul":
        return lambda: c*o
    if k == "div":
        return lambda: o/c
    return lambda: o**2


@op("SSF SVF", "n", "arith")
def _(o, e):
    k = e.ch("mul", "div", "rmul", "pow")
    c = e.num()
    return {"mul": lambda: o*c, "rmul": lambda: c*o, "div": lambda: o/c,
            "pow": lambda: o**2}[k]


@op("TSF TVF", "n", "get_mean_field")
def _(o, e):
    n = e.ch(1, 2)
    return lambda: o.get_mean_field(nmb_min=n)


@op("TSF TVF", "n", "get_interpolated_field", 2)
def _(o, e):
    t = e.pos(o.times, .5)
    return lambda: o.get_interpolated_field(t)


@op("TSF TVF", "n", "get_fluctuant_fields")
def _(o, e):
    n = e.ch(1, 2)
    return lambda: o.get_fluctuant_fields(nmb_min_mean=n)


def _comp(o, e):
    if isinstance(o, core.TemporalScalarFields):
        return "values"
    return e.ch("comp_x", "comp_y", "magnitude")


@op("TSF TVF", "n", "get_spatial_spectrum")
def _(o, e):
    c, d = _comp(o, e), e.ch("x", "y")
    ix, it = e.iv(o.axe_x), e.iv(o.times)
    return lambda: o.get_spatial_spectrum(c, d, intervx=ix, intervtime=it)


@op("TSF TVF", "n", "get_time_profile", 2)
def _(o, e):
    c = _comp(o, e)
    p = e.seq(pts_on(o, e, 1)[0])
    w = e.iv(o.times, .6)
    if e.flag(.3):
        p = e.seq([e.r.randrange(len(o.axe_x)), e.r.randrange(len(o.axe_y))])
        return lambda: o.get_time_profile(c, p, ind=True)
    return lambda: o.get_time_profile(c, p, wanted_times=w)


@op("TSF TVF", "i", "inject_time_profile!")
def _(o, e):
    c = "values" if isinstance(o, core.TemporalScalarFields) else e.ch(
        "comp_x", "comp_y")
    p = e.seq([0, 0])
    try:
        f = e.own(o.get_time_profile(c, [0, 0], ind=True)*2.)
    except Exception:
        f = None
    return lambda: o.inject_time_profile(c, p, f, ind=True)


@op("TSF TVF", "n", "get_temporal_spectrum")
def _(o, e):
    c = _comp(o, e)
    p = e.seq(pts_on(o, e, 1)[0])
    s = e.ch("base", "spectrum", "density")
    return lambda: o.get_temporal_spectrum(c, p, scaling=s, mask_error=False)


@op("TSF TVF", "n", "get_temporal_spectrum_over_area")
def _(o, e):
    c = _comp(o, e)
    ix, iy = e.iv(o.axe_x, 0), e.iv(o.axe_y, 0)
    return lambda: o.get_temporal_spectrum_over_area(c, ix, iy)


@op("TSF TVF", "n", "get_spectrum_map", .5)
def _(o, e):
    c = _comp(o, e)
    n = e.ch(1, 2)
    return lambda: o.get_spectrum_map(c, nmb_pic=n, verbose=False)


@op("TSF TVF", "n", "get_recurrence_map", .5)
def _(o, e):
    n = e.ch(1, 2)
    k = e.flag()
    return lambda: o.get_recurrence_map(norm=n, normalized=k)


@op("TSF TVF", "n", "get_spectral_filtering", .5)
def _(o, e):
    return lambda: o.get_spectral_filtering(.2, .4)


both("TSF TVF", "get_spectral_filtering2", lambda o, e: (
    "get_spectral_filtering", (.2, .4), {}), weight=.5)


@op("TSF", "n", "get_minmax_field")
def _(o, e):
    f = e.ch("get_min_field", "get_max_field")
    return lambda: getattr(o, f)()


@op("TSF", "n", "background")
def _(o, e):
    if e.flag():
        return lambda: o.get_background(noise_level=1)
    b = e.own(o.fields[0].copy())
    k = {"blend": e.flag(), "filling_value": e.ch(None, 0.)}
    return lambda: o.substract_background(b, noise_level=1, **k)


@op("TSF", "n", "get_phase_map", .5)
def _(o, e):
    f = e.ch(.1, .3)
    c = e.ch(None, 3)
    return lambda: o.get_phase_map(f, check_spec=c, verbose=False)


@op("TVF", "n", "turbulence")
def _(o, e):
    f = e.ch("get_time_auto_correlation", "get_mean_kinetic_energy",
             "get_tke", "get_turbulent_intensity", "get_mean_tke",
             "get_reynolds_stress")
    return lambda: getattr(o, f)()


@op("TSF TVF", "i", "add_field!", 2)
def _(o, e):
    f = o.fields[0].copy() if len(o.fields) else objs.build(
        objs.gen_spec(e.r, "SF" if isinstance(
            o, core.TemporalScalarFields) else "VF"))
    if e.flag(.3) and len(o.fields) and f.shape[0] > 2:
        f.crop(intervx=[1, f.shape[0] - 1], ind=True, inplace=True)
    e.own(f)
    t = e.ch(0., 100., e.pos(o.times))
    u = e.ch(None, "s", "ms")
    if u is None:
        u = e.own(o.unit_times)
    return lambda: o.add_field(f, time=t, unit_times=u)


@op("TSF TVF", "i", "remove_fields!")
def _(o, e):
    n = len(o.fields)
    i = e.r.randrange(max(1, n))
    if e.flag(.5) and n > 2:
        i = e.own(e.r.sample(range(n), 2))
    return lambda: o.remove_fields(i)


both("TSF TVF", "reduce_temporal_resolution", lambda o, e: (
    "reduce_temporal_resolution", (e.ch(1, 2, 3),), {"mean": e.flag()}),
    weight=2)
both("TSF TVF", "augment_temporal_resolution", lambda o, e: (
    "augment_temporal_resolution", (), {"fact": e.ch(2, 3)}))
both("TSF TVF", "remove_weird_fields", lambda o, e: (
    "remove_weird_fields", (), {"std_coef": e.ch(.5, 1., 3.),
                                "treatment": e.ch("interpolate", "remove")}))


@op("TSF TVF", "i", "change_unit_t!")
def _(o, e):
    u = _same_dim(e, o.unit_times)
    return lambda: o.change_unit("time", u)


@op("TSF TVF", "n", "pod", .5)
def _(o, e):
    k = "pod"
    w = e.ch("all", 1)
    o2 = None
    return lambda: pod.modal_decomposition(o, kind=k, obj2=o2,
                                           wanted_modes=w, verbose=False)


@op("TVF", "q", "vp.time_evolution", .5)
def _(o, e):
    t = traj_on(o, e)
    f = e.ch("get_vortex_radius_time_evolution",
             "get_vortex_property_time_evolution")
    return lambda: getattr(vp, f)(o, t)


# ----------------------------------------------------- SpatialFields -------
@op("SSF SVF", "q", "read")
def _(o, e):
    return lambda: (len(o), o.x_min, o.x_max, o.y_min, o.y_max, o.mask,
                    o.unit_x, o.unit_y, o.unit_values)


@op("SSF SVF", "q", "get_value")
def _(o, e):
    f = o.fields[0]
    x, y = pts_on(f, e, 1)[0]
    u = e.flag()
    return lambda: o.get_value(x, y, unit=u, error=False)


@op("SSF SVF", "n", "get_values_on_grid")
def _(o, e):
    f = o.fields[0]
    x = e.seq(np.linspace(f.axe_x[0], f.axe_x[-1], 4))
    y = e.seq(np.linspace(f.axe_y[0], f.axe_y[-1], 3))
    return lambda: o.get_values_on_grid(x, y)


@op("SSF SVF", "n", "get_profile")
def _(o, e):
    f = o.fields[0]
    d = e.ch("x", "y")
    p = e.pos(f.axe_x if d == "x" else f.axe_y)
    c = None if isinstance(o, core.SpatialScalarFields) else e.ch(
        "Vx", "Vy", "magnitude")
    return lambda: o.get_profile(d, p, component=c)


@op("SSF SVF", "i", "add_field!")
def _(o, e):
    f = o.fields[0].copy()
    for a in ("x", "y", "values"):
        if e.flag(.6):
            try:
                f.change_unit(a, _same_dim(e, getattr(f, "unit_" + a)))
            except Exception:
                pass
    e.own(f)
    return lambda: o.add_field(f)


@op("SSF SVF", "i", "remove_field!")
def _(o, e):
    i = e.r.randrange(len(o.fields))
    return lambda: o.remove_field(i)


# ---------------------------------------------------- TemporalPoints -------
@op("TPTS", "q", "read")
def _(o, e):
    return lambda: (len(o), [1 for _ in o], o.dt, o.unit_x, o.unit_y)


@op("TPTS", "i", "add_pts!")
def _(o, e):
    p = e.own(o.point_sets[0].copy()) if len(o.point_sets) else e.own(
        core.Points([[1., 2.]]))
    t = e.ch(0., 20., e.pos(o.times))
    u = e.ch("s", "ms", o.unit_times)
    return lambda: o.add_pts(p, time=t, unit_times=u)


@op("TPTS", "i", "remove_pts!")
def _(o, e):
    n = len(o.point_sets)
    i = e.r.randrange(max(n, 1))
    if e.flag(.5) and n > 2:
        i = e.own(e.r.sample(range(n), 2))
    return lambda: o.remove_pts(i)


@op("TPTS", "i", "change_unit!")
def _(o, e):
    a = e.ch("x", "y", "time")
    u = _same_dim(e, {"x": o.unit_x, "y": o.unit_y,
                      "time": o.unit_times}[a])
    return lambda: o.change_unit(a, u)


# ---------------------------------------------------------- CritPoints -----
@op("CP", "n", "add_cp")
def _(o, e):
    c = o.copy()
    k = e.ch("empty", "shift", "toempty")
    if k == "empty":
        c = e.own(vod.CritPoints(unit_time=o.unit_time))
        return lambda: o + c
    if k == "toempty":
        c = e.own(vod.CritPoints(unit_time=o.unit_time))
        return lambda: c + o
    c.times = np.array(c.times) + 100.
    e.own(c)
    return lambda: o + c


@op("CP", "q", "read")
def _(o, e):
    return lambda: ([len(x) for x in o.iter], o.unit_x, o.unit_time)


@op("CP", "n", "get_points_density")
def _(o, e):
    k = e.ch("foc", "foc_c", "node_i", "node_o", "sadd")
    return lambda: o.get_points_density(k, resolution=5)


@op("CP", "i", "compute_traj!", 2)
def _(o, e):
    x = e.ch(None, 1., 3.)
    c = e.flag(.3)
    return lambda: o.compute_traj(epsilon=x, close_traj=c)


@op("CP", "n", "get_mean_trajectory")
def _(o, e):
    k = e.ch("foc", "foc_c", "sadd")
    return lambda: o.get_mean_trajectory(k, min_len=1, min_nmb_to_avg=1)


@op("CP", "n", "get_traj_direction_changement")
def _(o, e):
    t = e.ch(*o.cp_types)
    d = e.ch("x", "y")
    sm = e.ch(None, 1, 2)
    return lambda: o.get_traj_direction_changement(t, d, smoothing=sm)


both("CP", "break_trajectories", lambda o, e: (
    "break_trajectories", (), {"x": e.own([0.]) if e.flag() else None,
                               "smooth_size": 1}))


@op("CP", "i", "add_point!")
def _(o, e):
    p = e.own(core.Points([[1., 2.]], v=[50.], unit_x=o.unit_x,
                          unit_y=o.unit_y, unit_v=o.unit_time))
    return lambda: o.add_point(foc=p, time=50.)


@op("CP", "i", "remove_point!")
def _(o, e):
    i = e.r.randrange(max(1, len(o.times)))
    return lambda: o.remove_point(indice=i)


@op("CP", "i", "change_unit!")
def _(o, e):
    a = e.ch("x", "y", "t")
    u = _same_dim(e, {"x": o.unit_x, "y": o.unit_y, "t": o.unit_time}[a])
    return lambda: o.change_unit(a, u)


@op("CP", "i", "trajs!")
def _(o, e):
    k = e.ch("clean_traj", "smooth_traj")
    if k == "clean_traj":
        return lambda: o.clean_traj(2)
    return lambda: o.smooth_traj(tos="uniform", size=2)


@op("CP", "n", "topo_simplify")
def _(o, e):
    k = e.ch("replacement", "")
    return lambda: o.topo_simplify(2., kind=k)


def _refine(o, e):
    t = core.TemporalScalarFields()
    for k, ti in enumerate(o.times):
        s = objs.build({"kind": "SF", "nx": 8, "ny": 7, "seed": e.seed(),
                        "mask": "none", "even": True, "ux": o.unit_x,
                        "uy": o.unit_y, "uv": "m"})
        s.axe_x = np.linspace(-6, 6, 8)
        s.axe_y = np.linspace(-6, 6, 7)
        t.add_field(s, time=float(ti), unit_times=o.unit_time)
    e.own(t)
    return "refine_cp_position", (e.ch("foc", "foc_c"), t), {}


both("CP", "refine_cp_position", _refine)


# --------------------------------------------------------- ModalFields -----
@op("MF", "q", "coherence", 2)
def _(o, e):
    f = e.ch("get_temporal_coherence", "get_spatial_coherence",
             "get_modes_energy")
    r = e.flag()
    return lambda: getattr(o, f)(raw=r)


@op("MF", "n", "reconstruct", 2)
def _(o, e):
    k = {}
    if e.flag():
        k["wanted_modes"] = e.ch(1, 2, e.own([0]))
    if e.flag():
        k["times"] = e.seq(sorted([e.pos(o.times), e.pos(o.times)]))
    return lambda: o.reconstruct(**k)


@op("MF", "n", "modes_as_tf")
def _(o, e):
    return lambda: o.modes_as_tf


@op("MF", "n", "copy")
def _(o, e):
    return lambda: o.copy()


both("MF", "crop", _crop_t)
both("MF", "crop_modal_base", lambda o, e: (
    "crop_modal_base", (), {"modes_to_keep": e.ch(1, 2, e.own([0]))}))


def _scale_mf(o, e):
    return "scale", (), {"scalex": e.num(), "scaley": e.num(),
                         "scalev": e.num(), "scalet": e.posnum()}


both("MF", "scale", _scale_mf)
both("MF", "smooth_temporal_evolutions", lambda o, e: (
    "smooth_temporal_evolutions", (), {"size": 2}))
both("MF", "smooth_spatial_evolutions", lambda o, e: (
    "smooth_spatial_evolutions", (), {"size": 2}))
both("MF", "augment_temporal_resolution", lambda o, e: (
    "augment_temporal_resolution", (), {"fact": 2}))


# ------------------------------------------------------------- displays -----
def shown(f):
    """Runs a display on a canvas nobody sees; its answer is no data."""
    def thunk():
        import matplotlib.pyplot as plt
        plt.close("all")
        try:
            f()
        finally:
            plt.close("all")
    return thunk


@op("SF", "q", "display", .4)
def _(o, e):
    c, k = e.ch(None, "values", "mask"), e.ch(None, "contour", "contourf")
    return shown(lambda: o.display(c, k))


@op("VF", "q", "display", .4)
def _(o, e):
    c = e.ch(None, "V", "comp_x", "comp_y", "mask", "magnitude")
    k = e.ch(None, "quiver", "stream") if c in (None, "V") else \
        e.ch(None, "contourf")
    return shown(lambda: o.display(c, k))


@op("PROF", "q", "display", .4)
def _(o, e):
    k, r = e.ch("plot", "semilogx", "semilogy", "loglog"), e.flag()
    return shown(lambda: o.display(k, r))


@op("PTS OPTS", "q", "display", .4)
def _(o, e):
    k = e.ch(None, "plot", "scatter", "colored_plot")
    return shown(lambda: o.display(k))


@op("TSF TVF", "q", "display", .15)
def _(o, e):
    n = len(o.fields)
    if e.flag():
        return shown(lambda: o.display(sharecb=e.flag()))
    inds = e.own(list(range(min(n, 2))))
    return shown(lambda: o.display_multiple(inds=inds))


@op("TPTS", "q", "display", .3)
def _(o, e):
    kw = e.own({"color": "r"})
    return shown(lambda: o.display(cpkw=kw))


@op("CP", "q", "display", .3)
def _(o, e):
    kw = e.own({"mew": 2})
    ln = e.own({"lw": 1})
    t = e.flag(.3)
    return shown(lambda: o.display(cpkw=kw, lnkw=ln, display_traj=t))


@op("CP", "q", "display_arch", .3)
def _(o, e):
    kw = e.own(e.ch({"mew": 2}, {"color": "r"}))
    i = e.r.randrange(len(o.times))
    return shown(lambda: o.display_arch(indice=i, cpkw=kw))


@op("CP", "q", "display_traj", .3)
def _(o, e):
    d = e.ch("default", "x", "y")
    return shown(lambda: o.display_traj(d))


@op("MF", "q", "display", .2)
def _(o, e):
    f = e.ch("display", "display_recap")
    return shown(lambda: getattr(o, f)())


def _schedule():
    """The kinds in turn, those with more operations more often."""
    count = {}
    for o in OPS.values():
        count[o.kinds] = count.get(o.kinds, 0) + 1
    rep = {k: max(1, int(round(n/20.))) for k, n in count.items()}
    out = []
    for r in range(max(rep.values())):
        out += [k for k in sorted(rep) if rep[k] > r]
    return out


def turn(i, _memo=[]):
    """The kind of the i-th run, and the how-manieth run of that kind it
    is."""
    if not _memo:
        _memo.append(_schedule())
    sched = _memo[0]
    pos = i % len(sched)
    kind = sched[pos]
    return kind, (i // len(sched))*sched.count(kind) + \
        sched[:pos].count(kind)

"""C16: a sequence in time stays consistent whatever happens to it: each field
(or set of points) keeps its own time, in order, and is treated as it would
be alone."""
import contextlib
import copy
import io
import json
import warnings

from sim.core import Property

TUNITS = {"s": 1., "ms": 1e-3, "": 1.}
SPATIAL = ["crop", "crop_ind", "scale", "set_origin", "rotate", "change_unit",
           "extend", "mirroring", "reduce_spatial", "smooth", "fill",
           "even", "neg", "add_num", "mul_num", "div_num", "pow",
           "add_field", "sub_field", "div_field", "mul_seq", "div_seq",
           "add_seq", "sub_seq"]
SEQ = ["add", "add", "add", "add_bad", "add_bad", "remove", "remove",
       "remove_bad", "crop_t", "crop_t_ind", "scale_t", "change_unit_t",
       "set_times", "set_times_bad", "set_unit_times", "reduce_t",
       "augment_t", "merge", "profile", "interpolate", "restart", "copy",
       "border"]
PTS_SEQ = ["add", "add", "add", "add_bad", "add_bad", "remove", "remove",
           "remove_bad", "crop_t", "crop_t_ind", "scale_t", "change_unit_t",
           "set_times", "set_times_bad", "set_unit_times", "restart", "copy"]
PTS_SPATIAL = ["crop", "scale", "change_unit", "smooth"]


class C16(Property):
    id = "C16"
    level = "exploration"
    runs = {"quick": 12000, "thorough": 60000}
    wall = {"quick": 240.0, "thorough": 2400.0}
    rule = ("A run is a history of 8-20 steps on one sequence (scalar fields, "
            "vector fields or points): additions in several time units and "
            "any order, removals, crops, changes of units and resolution, "
            "spatial treatments, sums, restarts from a file, refused requests "
            "(wrong type, axes, unit, index, length) and additions out of "
            "memory. After each step the sequence is compared to a reference "
            "model: an ordered list of (time in seconds, field treated "
            "alone). Non-trivial: at least two fields and four steps done.")
    sig_measure = "distinct (previous step, step, kind, outcome)"
    real = ["TemporalScalarFields, TemporalVectorFields, TemporalPoints, "
            "Fields, Field and the fields themselves"]
    stub = ["memory exhaustion (failing copy of the added field)"]
    shrink_lists = ("steps",)

    def setup(self):
        global np, objs, make_unit, core, simfs, imtio, obs
        import numpy as np
        import matplotlib
        matplotlib.use("Agg")
        from sim import objs, simfs
        from sim.observe import obs
        from IMTreatment import core
        from IMTreatment.utils import make_unit
        from IMTreatment import file_operation as imtio

    def gen(self, rng, i, tier):
        kind = ["TSF", "TVF", "TPTS"][i % 3]
        spec = {"kind": kind, "seed": rng.randrange(1 << 30),
                "nx": rng.randint(3, 7), "ny": rng.randint(3, 7),
                "mask": rng.choice(["none", "none", "some", "border"]),
                "even": rng.random() < .7,
                "ux": rng.choice(["m", "mm", ""]),
                "uy": rng.choice(["m", "mm", ""]),
                "uv": rng.choice(["m/s", "mm/s", ""]),
                "ut": rng.choice(["s", "ms", ""])}
        seq, spa = (PTS_SEQ, PTS_SPATIAL) if kind == "TPTS" else (SEQ,
                                                                  SPATIAL)
        steps = []
        j = i // 3
        for k in range(rng.randint(8, 20)):
            if k < 2 + (j % 3):
                op = "add"
            elif k == 6:
                op = (seq + spa)[j % len(seq + spa)]
            else:
                op = rng.choice(seq if rng.random() < .6 else spa)
            steps.append({"op": op, "seed": rng.randrange(1 << 30),
                          "inplace": rng.random() < .5})
        return {"spec": spec, "steps": steps}

    def execute(self, plan, log):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()), \
                    np.errstate(all="ignore"):
                Run(plan, log).go()

    def simplify(self, plan):
        s = plan["spec"]
        for kw in ([{"mask": "none"}] if s["mask"] != "none" else []) + \
                [{a: s[a] - 1} for a in ("nx", "ny") if s[a] > 3] + \
                ([{"even": True}] if not s["even"] else []):
            p = json.loads(json.dumps(plan))
            p["spec"].update(kw)
            yield p


class Refused(Exception):
    pass


def unit_eq(a, b):
    try:
        return abs((a/b).asNumber() - 1.) < 1e-9
    except Exception:
        return False


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == bool or b.dtype == bool:
        return bool(np.all(a == b))
    return bool(np.allclose(a.astype(float), b.astype(float), rtol=1e-7,
                            atol=1e-9, equal_nan=True))


def differ(a, b):
    """How two fields (or sets of points) differ, or None."""
    if type(a) is not type(b):
        return "type"
    if isinstance(a, core.ScalarField):
        names, units = ("axe_x", "axe_y", "mask", "values"), \
            ("unit_x", "unit_y", "unit_values")
    elif isinstance(a, core.VectorField):
        names, units = ("axe_x", "axe_y", "mask", "comp_x", "comp_y"), \
            ("unit_x", "unit_y", "unit_values")
    else:
        names, units = ("xy", "v"), ("unit_x", "unit_y", "unit_v")
    for n in names:
        x, y = getattr(a, n), getattr(b, n)
        if n in ("values", "comp_x", "comp_y") and \
                x.shape == y.shape == a.mask.shape:
            x, y = np.array(x, float), np.array(y, float)
            x[a.mask] = y[a.mask] = 0
        if not close(x, y):
            return n
    for n in units:
        if not unit_eq(getattr(a, n), getattr(b, n)):
            return n
    return None


class Run(object):
    def __init__(self, plan, log):
        self.spec, self.steps, self.log = plan["spec"], plan["steps"], log
        self.rs = np.random.RandomState(self.spec["seed"] % (1 << 31))
        self.kind = self.spec["kind"]
        if self.kind != "TPTS":
            self.axes = (objs._axis(self.rs, self.spec["nx"],
                                    self.spec["even"]),
                         objs._axis(self.rs, self.spec["ny"],
                                    self.spec["even"]))
        self.seq = {"TSF": core.TemporalScalarFields,
                    "TVF": core.TemporalVectorFields,
                    "TPTS": core.TemporalPoints}[self.kind]()
        self.model = []            # [seconds, field]
        self.unit = None           # time unit of the sequence

    # -- access ------------------------------------------------------------
    def parts(self, s=None):
        s = self.seq if s is None else s
        return s.point_sets if self.kind == "TPTS" else s.fields

    def new_part(self, rs):
        """A field that fits the sequence (or starts it)."""
        if self.kind == "TPTS":
            n = rs.randint(0, 6)
            if self.model:
                f0 = self.model[0][1]
                return core.Points(np.round(rs.uniform(-5, 5, (n, 2)), 3),
                                   v=np.round(rs.uniform(-5, 5, n), 3),
                                   unit_x=f0.unit_x, unit_y=f0.unit_y,
                                   unit_v=f0.unit_v)
            return core.Points(np.round(rs.uniform(-5, 5, (n, 2)), 3),
                               v=np.round(rs.uniform(-5, 5, n), 3),
                               unit_x=self.spec["ux"], unit_y=self.spec["uy"],
                               unit_v=self.spec["uv"])
        if self.model:
            f0 = self.model[0][1]
            axes = (f0.axe_x.copy(), f0.axe_y.copy())
            spec = self.spec
        else:
            f0, axes, spec = None, self.axes, self.spec
        f = (objs.sf if self.kind == "TSF" else objs.vf)(
            dict(spec, seed=int(rs.randint(1 << 30))), rs, axes=axes)
        if f0 is not None:
            f.unit_x, f.unit_y = f0.unit_x, f0.unit_y
            f.unit_values = f0.unit_values
        return f

    def field_like(self, rs):
        return self.new_part(rs)

    # -- running -----------------------------------------------------------
    def go(self):
        done, last = 0, "-"
        for k, st in enumerate(self.steps):
            rs = np.random.RandomState(st["seed"] % (1 << 31))
            self.inplace = st["inplace"]
            op = st["op"]
            if not self.model and op not in ("add", "add_bad", "restart",
                                             "copy", "set_unit_times"):
                op = "add"
            out = getattr(self, "op_" + op)(rs)
            self.log.ev(k, op, out, len(self.model))
            self.log.probe("%s" % (out or "done"))
            self.log.sig(last, op, self.kind, out)
            last = op
            if out != "skipped":
                done += 1
            if self.log.violations:
                return
            self.check(op)
            if self.log.violations:
                return
            if len(self.model) > 24:
                return
        self.log.nontrivial = done >= 4 and len(self.model) >= 2

    def bad(self, op, what, msg=""):
        self.log.expect(False, "%s:%s:%s" % (what, self.kind, op), msg)

    def check(self, op):
        s, ps = self.seq, self.parts()
        self.log.evals += 1
        if len(ps) != len(self.model):
            return self.bad(op, "number-of-fields", "%d instead of %d"
                            % (len(ps), len(self.model)))
        if len(s.times) != len(ps) or len(s) != len(ps):
            return self.bad(op, "times-and-fields", "%d times for %d fields"
                            % (len(s.times), len(ps)))
        if not self.model:
            return
        u = make_unit(self.unit)
        if not unit_eq(s.unit_times, u):
            return self.bad(op, "time-unit", "%s instead of %s"
                            % (s.unit_times, u))
        want = np.array([t/TUNITS[self.unit] for t, _ in self.model])
        if not close(np.asarray(s.times, dtype=float), want):
            return self.bad(op, "times", "%s instead of %s" % (s.times, want))
        if np.any(np.diff(np.asarray(s.times, dtype=float)) < -1e-9):
            return self.bad(op, "order", str(s.times))
        for i, (t, f) in enumerate(self.model):
            d = differ(ps[i], f)
            if d:
                return self.bad(op, "field-" + d, "field %d of %d: %s "
                                "instead of %s" % (i, len(ps),
                                                   getattr(ps[i], d, "?"),
                                                   getattr(f, d, "?")))
        it = list(s)
        if len(it) != len(ps) or not close([a[0] for a in it], want) or \
                any(a[1] is not b for a, b in zip(it, ps)):
            return self.bad(op, "iteration")
        if self.kind == "TPTS":
            for n in ("unit_x", "unit_y"):
                if not unit_eq(getattr(s, n), getattr(ps[0], n)):
                    return self.bad(op, "container-" + n)
        else:
            for n in ("axe_x", "axe_y"):
                if not close(getattr(s, n), getattr(ps[0], n)):
                    return self.bad(op, "container-" + n, "%s, but %s for "
                                    "the fields" % (getattr(s, n),
                                                    getattr(ps[0], n)))
            for n in ("unit_x", "unit_y"):
                if not unit_eq(getattr(s, n), getattr(ps[0], n)):
                    return self.bad(op, "container-" + n)

    def refused(self, op, call):
        """The call has to fail and to leave everything as it was."""
        before = obs(self.seq)
        self.log.fault("refused:" + op)
        try:
            call()
        except Exception:
            pass
        else:
            self.bad(op, "accepted")
            return "accepted"
        if obs(self.seq) != before:
            self.bad(op, "refused-but-altered")
        return "refused"

    def sort(self):
        self.model.sort(key=lambda e: round(e[0], 9))

    # -- sequence operations -----------------------------------------------
    def op_add(self, rs):
        f = self.new_part(rs)
        if self.model:
            us = ["s", "ms"] if self.unit in ("s", "ms") else [""]
            u = us[rs.randint(len(us))]
        else:
            u = self.spec["ut"] if rs.uniform() < .7 else \
                ["s", "ms", ""][rs.randint(3)]
            self.unit = u
        t = float(rs.randint(0, 12))/4
        t = t/TUNITS[u]
        if rs.uniform() < .3:
            t = np.float64(t)
        elif t % 1 == 0 and rs.uniform() < .3:
            t = int(t)
        how = rs.randint(3)
        if self.model and u == self.unit and rs.uniform() < .3:
            un = self.seq.unit_times
        else:
            un = u if rs.uniform() < .5 else make_unit(u)
        if u == self.unit and rs.uniform() < .2 and self.model:
            un = ""             # no unit: the one of the sequence
        if self.kind == "TPTS":
            self.seq.add_pts(f, time=t, unit_times=un)
        elif how == 0:
            self.seq.add_field(f, t, un)
        else:
            self.seq.add_field(f, time=t, unit_times=un, copy=how == 1)
        self.model.append([float(t)*TUNITS[u], copy.deepcopy(f)])
        self.sort()

    def op_add_bad(self, rs):
        f = self.new_part(rs)
        u = self.unit if self.model else "s"
        add = self.seq.add_pts if self.kind == "TPTS" else self.seq.add_field
        ways = ["type", "time", "unit-value", "unit-type", "memory"]
        if self.model and self.kind != "TPTS":
            ways += ["axe_x", "axe_y", "shape", "kind"]
        w = ways[rs.randint(len(ways))]
        if w == "type":
            arg = ([1, 2], 0., u)
        elif w == "time":
            arg = (f, "soon", u)
        elif w == "unit-value":
            arg = (f, 1., 2.*make_unit("s"))
        elif w == "unit-type":
            arg = (f, 1., 12)
        elif w in ("axe_x", "axe_y"):
            setattr(f, w, getattr(f, w) + .25)
            arg = (f, 1., u)
        elif w == "shape":
            f = (objs.sf if self.kind == "TSF" else objs.vf)(
                self.spec, rs, axes=(np.append(f.axe_x, f.axe_x[-1] + 1.),
                                     f.axe_y.copy()))
            arg = (f, 1., u)
        elif w == "kind":
            o = "TVF" if self.kind == "TSF" else "TSF"
            arg = ((objs.sf if o == "TSF" else objs.vf)(
                self.spec, rs, axes=(f.axe_x.copy(), f.axe_y.copy())), 1., u)
        else:
            class Full(type(f)):
                def __deepcopy__(self, memo):
                    raise MemoryError("simulated")

                def copy(self):
                    raise MemoryError("simulated")
            f.__class__ = Full
            arg = (f, 1., u)
        return self.refused("add-" + w, lambda: add(*arg))

    def removal(self):
        if self.kind == "TPTS":
            return self.seq.remove_pts
        return self.seq.remove_fields

    def op_remove(self, rs):
        n = len(self.model)
        if rs.uniform() < .5:
            i = int(rs.randint(n))
            arg, gone = (np.int64(i) if rs.uniform() < .3 else i), [i]
        else:
            k = rs.randint(1, min(n, 3) + 1)
            gone = [int(x) for x in rs.permutation(n)[:k]]
            arg = np.array(gone) if rs.uniform() < .3 else list(gone)
        if self.kind != "TPTS" and rs.uniform() < .3:
            self.seq.remove_field(arg)
        else:
            self.removal()(arg)
        self.model = [e for i, e in enumerate(self.model) if i not in gone]

    def op_remove_bad(self, rs):
        n = len(self.model)
        arg = n + int(rs.randint(3))
        if rs.uniform() < .5:
            arg = [int(rs.randint(n)), arg]
        return self.refused("remove", lambda: self.removal()(arg))

    def result(self, r, before):
        """Takes the returned sequence over; the original one has to be as
        before."""
        if not self.inplace:
            if obs(self.seq) != before:
                self.bad("?", "original-altered")
            self.seq = r

    def op_crop_t(self, rs):
        ts = [float(t) for t in self.seq.times]
        a, b = sorted(rs.uniform(ts[0] - 1, ts[-1] + 1, 2))
        if rs.uniform() < .5:
            a = ts[rs.randint(len(ts))]
            b = max(b, a)
        eps = 1e-9*max(1., abs(a), abs(b))
        if a > ts[-1] or b < ts[0]:
            return self.refused("crop_t", lambda: self.seq.crop(
                intervt=[a, b], inplace=self.inplace))
        if any(0 < abs(t - x) < eps for t in ts for x in (a, b)):
            return "skipped"
        keep = [e for e, t in zip(self.model, ts) if a <= t <= b]
        if not keep:
            return "skipped"
        before = obs(self.seq)
        kw = {}
        if self.kind != "TPTS" and rs.uniform() < .4:
            wx, wy = self.window(rs)
            kw = [{"intervx": wx, "intervy": wy}, {"intervx": wx},
                  {"intervy": wy}][rs.randint(3)]
            try:
                keep = [[t, f.crop(inplace=False, **copy.deepcopy(kw))]
                        for t, f in keep]
            except Exception:
                return "skipped"
        r = self.seq.crop(intervt=[a, b], inplace=self.inplace, **kw)
        self.result(r, before)
        self.model = keep

    def op_crop_t_ind(self, rs):
        n = len(self.model)
        a = int(rs.randint(n))
        b = int(rs.randint(a, n))
        before = obs(self.seq)
        r = self.seq.crop(intervt=[a, b], ind=True, inplace=self.inplace)
        self.result(r, before)
        self.model = self.model[a:b + 1]

    def op_scale_t(self, rs):
        f = float(rs.choice([.5, 2., 4.]))
        arg = f
        if self.unit == "" and rs.uniform() < .4:
            arg = f*make_unit("s")
        before = obs(self.seq)
        r = self.seq.scale(scalet=arg, inplace=self.inplace)
        self.result(r, before)
        if arg is not f:
            self.unit = "s"
        for e in self.model:
            e[0] *= f

    def op_change_unit_t(self, rs):
        if self.unit == "" or rs.uniform() < .2:
            return self.refused("change_unit_t", lambda:
                                self.seq.change_unit("time", "m"))
        u = ["s", "ms"][rs.randint(2)]
        self.seq.change_unit("time", u if rs.uniform() < .5 else
                             make_unit(u))
        self.unit = u

    def op_set_times(self, rs):
        t = np.cumsum(rs.randint(1, 5, len(self.model)))/4.
        arg = [t.copy(), list(t), tuple(t)][rs.randint(3)] \
            if rs.uniform() < .7 else t.copy()
        self.seq.times = arg
        if isinstance(arg, np.ndarray):
            arg += 100.
        for e, x in zip(self.model, t):
            e[0] = x*TUNITS[self.unit]

    def op_set_times_bad(self, rs):
        def f():
            self.seq.times = np.arange(len(self.model) + 1.)
        return self.refused("set_times", f)

    def op_set_unit_times(self, rs):
        u = ["s", "ms", ""][rs.randint(3)]
        self.seq.unit_times = u if rs.uniform() < .6 else make_unit(u)
        if self.model:
            for e in self.model:
                e[0] *= TUNITS[u]/TUNITS[self.unit]
            self.unit = u

    def op_reduce_t(self, rs):
        n = len(self.model)
        if n < 3:
            return "skipped"
        k = int(rs.randint(1, n))
        mean = bool(rs.randint(2))
        before = obs(self.seq)
        r = self.seq.reduce_temporal_resolution(k, mean=mean,
                                                inplace=self.inplace)
        self.result(r, before)
        out = []
        for i in range(0, n - k + 1, k):
            t, f = self.model[i]
            if mean and k > 1:
                for j in range(i + 1, i + k):
                    t, f = t + self.model[j][0], f + self.model[j][1]
                t, f = t/k, f/k
            out.append([t, f])
        self.model = out

    def op_augment_t(self, rs):
        n = len(self.model)
        ts = [t for t, _ in self.model]
        if n < 2 or n > 8 or len(set(ts)) < n:
            return "skipped"
        k = int(rs.randint(1, 4))
        before = obs(self.seq)
        r = self.seq.augment_temporal_resolution(fact=k, inplace=self.inplace)
        self.result(r, before)
        out = []
        for i in range(n - 1):
            (t0, f0), (t1, f1) = self.model[i], self.model[i + 1]
            out.append([t0, f0])
            for j in range(1, k):
                c = j/float(k)
                out.append([t0 + c*(t1 - t0), f1*c + f0*(1. - c)])
        self.model = out + [self.model[-1]]

    def op_interpolate(self, rs):
        ts = [t/TUNITS[self.unit] for t, _ in self.model]
        if len(ts) < 2 or len(set(ts)) < len(ts):
            return "skipped"
        i = int(rs.randint(len(ts) - 1))
        c = float(rs.choice([0., .25, .5, 1.]))
        t = float(ts[i] + c*(ts[i + 1] - ts[i]))
        if not ts[0] <= t <= ts[-1]:
            return "skipped"
        if c in (0., 1.):
            t = float(self.seq.times[i + int(c)])
        f = self.seq.get_interpolated_field(t)
        w = self.model[i + 1][1]*c + self.model[i][1]*(1. - c) \
            if 0 < c < 1 else self.model[i + int(c)][1]
        d = differ(f, w)
        if d:
            self.bad("interpolate", "answer-" + d)

    def op_profile(self, rs):
        if len(set(round(t, 9) for t, _ in self.model)) < len(self.model):
            return "skipped"
        f = self.model[0][1]
        i, j = int(rs.randint(f.shape[0])), int(rs.randint(f.shape[1]))
        comp = "values" if self.kind == "TSF" else \
            ["comp_x", "comp_y"][rs.randint(2)]
        p = self.seq.get_time_profile(comp, [i, j], ind=True)
        w = np.array([np.nan if f.mask[i, j] else getattr(f, comp)[i, j]
                      for _, f in self.model])
        if not (close(p.x, [t/TUNITS[self.unit] for t, _ in self.model])
                and close(p.y, w) and unit_eq(p.unit_x,
                                              make_unit(self.unit))):
            self.bad("profile", "answer")

    def other_seq(self, rs, same_times):
        o = self.seq.__class__()
        m = []
        u = self.unit
        if same_times:
            for t, _ in self.model:
                f = self.new_part(rs)
                o.add_field(f, t/TUNITS[u], u)
                m.append([t, copy.deepcopy(f)])
            # the very same times, to the bit
            o.times = np.array(self.seq.times, dtype=float)
        else:
            if u in ("s", "ms") and rs.uniform() < .4:
                u = "s" if u == "ms" else "ms"
            for t in np.sort(rs.permutation(40)[:rs.randint(1, 4)]) \
                    + 100.0625:
                f = self.new_part(rs)
                o.add_field(f, t, u)
                m.append([t*TUNITS[u], copy.deepcopy(f)])
        return o, m

    def op_merge(self, rs):
        o, m = self.other_seq(rs, False)
        if len(self.model) == 1 and rs.uniform() < .5:
            # two fields, both at the very time of the present one
            o, m = self.seq.__class__(), []
            for _ in range(2):
                f = self.new_part(rs)
                o.add_field(f, 1., self.unit)
                m.append([self.model[0][0], copy.deepcopy(f)])
            o.times = np.array([self.seq.times[0]]*2, dtype=float)
        before, b2 = obs(self.seq), obs(o)
        r = self.seq + o
        self.inplace = False
        self.result(r, before)
        if obs(o) != b2:
            self.bad("merge", "argument-altered")
        self.model = self.model + m
        self.sort()

    def op_copy(self, rs):
        self.seq = self.seq.copy()

    def op_restart(self, rs):
        root = simfs.scratch()
        try:
            p = root + "/seq.cimt"
            imtio.export_to_file(self.seq, p)
            self.seq = imtio.import_from_file(p)
        finally:
            import shutil
            shutil.rmtree(root, ignore_errors=True)

    # -- each field treated as it would be alone ---------------------------
    def each(self, name, args, kw, returning=True, alone=None):
        """name(*args, **kw) on the sequence, and on each field alone."""
        before = obs(self.seq)
        want, err = [], None
        alone = args if alone is None else alone
        for t, f in self.model:
            g = copy.deepcopy(f)
            try:
                if returning:
                    g = getattr(g, name)(*copy.deepcopy(alone), inplace=False,
                                         **copy.deepcopy(kw))
                else:
                    getattr(g, name)(*copy.deepcopy(alone),
                                     **copy.deepcopy(kw))
            except Exception as e:
                err = e
                break
            want.append([t, g])
        try:
            if returning:
                kw = dict(kw, inplace=self.inplace)
            r = getattr(self.seq, name)(*args, **kw)
        except Exception as e:
            if err is None:
                self.bad(name, "fails", "%s: %s" % (type(e).__name__, e))
            # (an altering treatment may have done some of the fields)
            if returning and not self.inplace:
                if obs(self.seq) != before:
                    self.bad(name, "refused-but-altered")
            else:
                self.model = []
                self.seq = self.seq.__class__()
            return "refused"
        if err is not None:
            self.bad(name, "accepted", "fails on a field alone: %s: %s"
                     % (type(err).__name__, err))
            return "accepted"
        if returning:
            self.result(r, before)
        self.model = want

    def window(self, rs):
        if self.kind == "TPTS":
            return [-2. - rs.uniform(), 1. + rs.uniform()], \
                [-3., rs.uniform(-1, 4)]
        f = self.model[0][1]
        w = []
        for a in (f.axe_x, f.axe_y):
            i = rs.randint(0, max(1, len(a) - 2))
            j = rs.randint(i + 1, len(a)) if len(a) > 1 else 0
            w.append([float(a[i]), float(a[j])])
        return w

    def op_crop(self, rs):
        wx, wy = self.window(rs)
        kw = {}
        if rs.uniform() < .8:
            kw["intervx"] = wx
        if rs.uniform() < .8:
            kw["intervy"] = wy
        return self.each("crop", (), kw)

    def op_crop_ind(self, rs):
        nx, ny = self.model[0][1].shape
        if nx < 3 or ny < 3:
            return "skipped"
        a, b = int(rs.randint(0, nx - 2)), int(rs.randint(0, ny - 2))
        return self.each("crop", (), {"intervx": [a, nx - 1],
                                      "intervy": [b, ny - 1], "ind": True})

    def op_scale(self, rs):
        kw = {}
        for n in ("scalex", "scaley", "scalev"):
            r = rs.randint(4)
            if r == 1:
                kw[n] = float(rs.choice([.5, 2., 3.]))
            elif r == 2 and self.kind != "TPTS":
                kw[n] = 2.*make_unit(str(rs.choice(["m", "s", "1/s"])))
        return self.each("scale", (), kw)

    def op_set_origin(self, rs):
        return self.each("set_origin", (float(np.round(rs.uniform(-3, 3), 2)),
                                        float(np.round(rs.uniform(-3, 3), 2))
                                        ), {}, returning=False)

    def op_rotate(self, rs):
        return self.each("rotate", (int(rs.choice([90, 180, 270, -90])),),
                         {})

    def op_change_unit(self, rs):
        a = str(rs.choice(["x", "y", "values"]))
        f = self.model[0][1]
        try:
            (f.unit_v if a == "values" and self.kind == "TPTS" else
             getattr(f, "unit_" + a))/make_unit("m")
        except Exception:
            return "skipped"
        u = {"x": ["m", "mm", "s"], "y": ["m", "mm", "cm"],
             "values": ["m/s", "mm/s", "K"]}[a]
        new = str(rs.choice(u))
        return self.each("change_unit", (a, new), {}, returning=False,
                         alone=("v", new) if a == "values" and
                         self.kind == "TPTS" else None)

    def op_extend(self, rs):
        if min(self.model[0][1].shape) < 2 or \
                max(self.model[0][1].shape) > 12:
            return "skipped"
        k = [int(x) for x in rs.randint(0, 3, 4)]
        return self.each("extend", (), dict(nmb_left=k[0], nmb_right=k[1],
                                            nmb_up=k[2], nmb_down=k[3]))

    def op_mirroring(self, rs):
        f = self.model[0][1]
        if max(f.shape) > 10 or min(f.shape) < 2:
            return "skipped"
        d = int(rs.randint(1, 3))
        a = f.axe_x if d == 1 else f.axe_y
        side = rs.randint(2)
        p = float(a[0] - (a[1] - a[0])/2. if side else
                  a[-1] + (a[-1] - a[-2])/2.)
        return self.each("mirroring", (d, p), {})

    def op_reduce_spatial(self, rs):
        f = self.model[0][1]
        if min(f.shape) < 4:
            return "skipped"
        return self.each("reduce_spatial_resolution", (2,), {})

    def op_smooth(self, rs):
        if any(f.mask.any() for _, f in self.model) \
                if self.kind != "TPTS" else any(len(f.xy) < 3
                                                for _, f in self.model):
            return "skipped"
        return self.each("smooth", (), dict(
            tos=str(rs.choice(["uniform", "gaussian"])),
            size=int(rs.choice([2, 3]))))

    def op_fill(self, rs):
        f = self.model[0][1]
        if min(f.shape) < 3:
            return "skipped"
        kw = dict(kind=str(rs.choice(["nearest", "linear", "value"])))
        if kw["kind"] == "value":
            kw["value"] = 1.5 if self.kind == "TSF" else [1.5, -.5]
        elif any(f.mask.mean() > .4 for _, f in self.model):
            return "skipped"
        return self.each("fill", (), kw)

    def op_even(self, rs):
        f = self.model[0][1]
        if min(f.shape) < 4 or any(f.mask.any() for _, f in self.model):
            return "skipped"
        return self.each("make_evenly_spaced", (), {"interp": "linear"},
                         returning=False)

    # -- arithmetic --------------------------------------------------------
    def arith(self, op, fun):
        before = obs(self.seq)
        try:
            want = [[t, fun(f, i)] for i, (t, f) in enumerate(self.model)]
        except Exception:
            return "skipped"
        try:
            r = fun(self.seq, None)
        except Exception as e:
            return self.bad(op, "fails", "%s: %s" % (type(e).__name__, e))
        self.inplace = False
        self.result(r, before)
        self.model = want

    def op_neg(self, rs):
        return self.arith("neg", lambda f, i: -f)

    def op_add_num(self, rs):
        return self.arith("add_num", lambda f, i: f + 1.25)

    def op_mul_num(self, rs):
        return self.arith("mul_num", lambda f, i: f*2.)

    def op_div_num(self, rs):
        return self.arith("div_num", lambda f, i: f/4.)

    def op_pow(self, rs):
        if self.kind == "TVF":
            return "skipped"
        return self.arith("pow", lambda f, i: f**2)

    def op_add_field(self, rs):
        g = self.field_like(rs)
        return self.arith("add_field", lambda f, i: f + g)

    def op_sub_field(self, rs):
        g = self.field_like(rs)
        return self.arith("sub_field", lambda f, i: f - g)

    def op_div_field(self, rs):
        g = self.field_like(rs)
        return self.arith("div_field", lambda f, i: f/g)

    def with_seq(self, rs, op, fun):
        if len(set(round(t, 9) for t, _ in self.model)) < len(self.model):
            return "skipped"
        o, m = self.other_seq(rs, True)
        return self.arith(op, lambda f, i: fun(f, o if i is None else
                                               m[i][1]))

    def op_mul_seq(self, rs):
        return self.with_seq(rs, "mul_seq", lambda a, b: a*b)

    def op_div_seq(self, rs):
        return self.with_seq(rs, "div_seq", lambda a, b: a/b)

    def op_add_seq(self, rs):
        return self.with_seq(rs, "add_seq", lambda a, b: a + b)

    def op_sub_seq(self, rs):
        return self.with_seq(rs, "sub_seq", lambda a, b: a - b)

    def op_border(self, rs):
        """Lines masked in every field are removed from all of them."""
        m = np.all([f.mask for _, f in self.model], axis=0)
        kx, ky = ~np.all(m, axis=1), ~np.all(m, axis=0)
        if not kx.any() or not ky.any():
            return "skipped"
        ix, iy = np.where(kx)[0], np.where(ky)[0]
        if ix[-1] == 0 or iy[-1] == 0:
            return "skipped"        # (no window of one line at index 0)
        before = obs(self.seq)
        r = self.seq.crop_masked_border(inplace=self.inplace)
        self.result(r, before)
        for e in self.model:
            if m.any():
                e[1] = e[1].crop([int(ix[0]), int(ix[-1])],
                                 [int(iy[0]), int(iy[-1])], ind=True)


PROPERTY = C16()

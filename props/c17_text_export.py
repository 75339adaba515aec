"""C17: exports to text, matlab and picture files are complete once they
returned, and report storage errors."""
import contextlib
import io
import json
import os
import random
import shutil

from sim.core import Property
from sim import simfs

FORMATS = {"ascii": ["SF", "VF", "PROF", "PTS", "CP"],
           "matlab": ["SF", "VF", "PROF", "PTS"],
           "picture": ["PIC"], "pictures": ["PIC"]}


class C17(Property):
    id = "C17"
    level = "fault_enumeration"
    runs = {"quick": 3000, "thorough": 40000}
    rule = ("A run exports 1-4 drawn objects to text, matlab or picture files "
            "(new or over existing ones), each with a possible fault at a "
            "drawn I/O step (ENOSPC, EIO, short write, interrupt, kill); the "
            "process is killed right after the last export and another one "
            "reads the files back, with short reads or read errors. "
            "Non-trivial: a fault fired or a file was read back.")
    sig_measure = "distinct (format, object kind, fault kind, step, outcome)"
    real = ["file_operation text, matlab and picture exporters and importers",
            "scipy.io, imageio, numpy.genfromtxt", "process death"]
    stub = ["raw file objects (fault injector)"]
    assumptions = ["at least one element per object", "pictures hold 8-bit "
                   "values", "units are given again when reading text"]
    shrink_lists = ("ops",)

    def setup(self):
        global objs, imtio, np, dig, IMT
        from sim import objs
        from sim.observe import dig
        from IMTreatment.file_operation import file_operation as imtio
        import IMTreatment as IMT
        import numpy as np
        import PIL.Image
        import scipy.io    # noqa
        PIL.Image.init()

    def gen(self, rng, i, tier):
        ops = []
        faulty = rng.random() < .7
        for _ in range(rng.randint(1, 4)):
            fmt = rng.choice(["ascii", "ascii", "ascii", "matlab", "matlab",
                              "picture", "pictures"])
            kind = rng.choice(FORMATS[fmt])
            if kind == "PIC":
                spec = {"kind": kind, "seed": rng.randrange(1 << 30),
                        "nx": rng.randint(2, 7), "ny": rng.randint(2, 7)}
            else:
                spec = objs.gen_spec(rng, kind)
                if kind in ("SF", "VF") and rng.random() < .15:
                    spec["nx"], spec["ny"] = 25, 31
                if kind in ("PROF", "PTS", "OPTS"):
                    spec["n"] = rng.choice([1, 1, 2, 3, 7, 300])
                if fmt == "matlab":
                    spec["n"] = max(2, spec["n"])
            op = {"fmt": fmt, "spec": spec, "f": rng.randrange(3)}
            if faulty and rng.random() < .6:
                op["fault"] = [round(rng.random(), 3), rng.choice(
                    ["enospc", "enospc", "eio", "short", "interrupt",
                     "crash"]), rng.choice([0., .5, 1.])]
            if faulty and rng.random() < .3:
                op["rfault"] = [round(rng.random(), 3), rng.choice(
                    ["short", "eio", "interrupt"]), .3]
            ops.append(op)
        return {"ops": ops}

    # -- objects and files -----------------------------------------------------
    def build(self, spec):
        if spec["kind"] == "PIC":
            rs = np.random.RandomState(spec["seed"] % (1 << 31))
            f = IMT.ScalarField()
            v = rs.randint(0, 256, (spec["nx"], spec["ny"])).astype("uint8")
            f.import_from_arrays(np.arange(float(spec["nx"])),
                                 np.arange(float(spec["ny"])), v,
                                 dtype=np.uint8)
            return f
        return objs.build(spec)

    def name(self, op):
        return "%s_%s_%d" % (op["fmt"], op["spec"]["kind"], op["f"])

    def export(self, d, op, ob):
        base = d + "/" + self.name(op)
        if op["fmt"] == "ascii":
            imtio.export_to_ascii(ob, base + ".txt")
        elif op["fmt"] == "matlab":
            imtio.export_to_matlab(ob, base + ".mat")
        elif op["fmt"] == "picture":
            imtio.export_to_picture(ob, base + ".png")
        else:
            t = IMT.TemporalScalarFields()
            t.add_field(ob, 0.)
            t.add_field(ob, 1.)
            imtio.export_to_pictures(t, base)

    def readback(self, d, op, ob):
        """Values read by the importers: list of (what, stored, wanted)."""
        base = d + "/" + self.name(op)
        k = op["spec"]["kind"]
        out = []
        if op["fmt"] == "ascii" and k in ("SF", "VF"):
            kw = dict(unit_x=ob.unit_x, unit_y=ob.unit_y,
                      unit_values=ob.unit_values)
            f = (imtio.import_sf_from_ascii if k == "SF"
                 else imtio.import_vf_from_ascii)(base + ".txt", **kw)
            out = self.pairs(f, ob)
        elif op["fmt"] == "ascii" and k == "PROF":
            f = imtio.import_profile_from_ascii(
                base + ".txt", unit_x=ob.unit_x, unit_y=ob.unit_y)
            out = self.pairs(f, ob)
        elif op["fmt"] == "ascii" and k == "PTS":
            f = imtio.import_pts_from_ascii(
                base + ".txt", v_col=3 if len(ob.v) else None,
                unit_x=ob.unit_x, unit_y=ob.unit_y, unit_v=ob.unit_v)
            out = self.pairs(f, ob)
        elif op["fmt"] == "ascii" and k == "CP":
            n = 0
            for typ in ob.cp_types:
                for t, pt in zip(ob.times, getattr(ob, typ)):
                    u = ob.unit_time.strUnit()
                    p = "%s/%s_t=%s%s.txt" % (base, typ, t,
                                              "" if u == "[]" else u)
                    with open(p) as fh:
                        rows = [[float(x) for x in line.split("\t")]
                                for line in fh if not line.startswith("#")]
                    want = [list(r) for r in pt.xy]
                    if len(pt.v):
                        want = [list(r) + [v] for r, v in zip(pt.xy, pt.v)]
                    out.append(("rows%d" % n, np.array(rows),
                                np.array(want)))
                    n += 1
        elif op["fmt"] == "matlab":
            kinds = {"SF": "ScalarField", "VF": "VectorField",
                     "PROF": "Profile", "PTS": "Points"}
            f = imtio.import_from_matlab(base + ".mat", kinds[k])
            out = self.pairs(f, ob)
            for u in ("unit_x", "unit_y", "unit_values", "unit_v"):
                if hasattr(ob, u):
                    same = dig(getattr(f, u)) == dig(getattr(ob, u))
                    out.append((u, np.array(same), np.array(True)))
        elif op["fmt"] == "picture":
            f = imtio.import_from_picture(base + ".png")
            out = [("values", f.values, ob.values.astype(float))]
        else:
            t = imtio.import_from_pictures(base + "_*.png")
            out = [("number", np.array(len(t.fields)), np.array(2))]
            out += [("values", f.values, ob.values.astype(float))
                    for f in t.fields]
        return out

    @staticmethod
    def pairs(f, ob):
        out = []
        for a in ("axe_x", "axe_y", "x", "y", "values", "comp_x", "comp_y",
                  "xy", "v", "mask"):
            if hasattr(ob, a):
                out.append((a, np.asarray(getattr(f, a)),
                            np.asarray(getattr(ob, a))))
        return out

    # -- execution -------------------------------------------------------------
    def execute(self, plan, log):
        root = simfs.scratch()
        try:
            self._run(plan, log, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, plan, log, root):
        data = os.path.join(root, "d")
        os.makedirs(data)
        good = {}
        ops = list(enumerate(plan["ops"]))
        while ops:
            def one(report, sub, die, ops=ops):
                with contextlib.redirect_stdout(io.StringIO()):
                    self._export(data, ops, report, sub, die)
            msgs, crashed = simfs.life(one, log)
            started = set()
            for m in msgs:
                if m[0] == "start":
                    started.add(m[1])
                    good.pop(self.name(plan["ops"][m[1]]), None)
                elif m[0] == "ack":
                    good[self.name(plan["ops"][m[1]])] = m[1]
            ops = [(k, o) for k, o in ops if k not in started]
        if good:
            def rd(report, sub, die):
                with contextlib.redirect_stdout(io.StringIO()):
                    for k in sorted(good.values()):
                        self._read(data, k, plan["ops"][k], sub)
            simfs.life(rd, log)
        if log.faults or good:
            log.nontrivial = True

    def _export(self, data, ops, report, sub, die):
        fs = simfs.SimFS(data, sub)
        fs.on_crash = die
        for k, op in ops:
            report("start", k)
            ob = self.build(op["spec"])
            before = dig(ob)
            fault = op.get("fault")
            fs.set_faults([])
            if fault:
                d2 = data + "_cal"
                shutil.copytree(data, d2)
                c = simfs.SimFS(d2, type(sub)())
                with c:
                    self.export(d2, op, self.build(op["spec"]))
                shutil.rmtree(d2)
                at = min(max(c.nstep - 1, 0), int(fault[0] * c.nstep))
                fs.set_faults([[at, fault[1], fault[2]]])
                sub.sig(op["fmt"], op["spec"]["kind"], fault[1], at)
            n0 = sum(sub.faults.values())
            try:
                with fs:
                    self.export(data, op, ob)
                err = None
            except (Exception, KeyboardInterrupt) as e:
                err = e
            fired = sum(sub.faults.values()) > n0 and fault[1] != "short"
            sub.evals += 1
            sub.ev(k, op["fmt"], op["spec"]["kind"], "fired", fired,
                   type(err).__name__)
            if err is None:
                report("ack", k)
            elif not fired:
                sub.violate("export-failed:%s:%s" % (
                    op["fmt"], type(err).__name__),
                    "%r though nothing failed during it" % err)
            sub.expect(dig(ob) == before, "export-altered-object", op["fmt"])
        # killed right after the last export returned
        sub.fault("kill_after_export")
        die()

    def _read(self, data, k, op, sub):
        ob = self.build(op["spec"])
        fs = simfs.SimFS(data, sub)
        fs.only = ("open-r", "read")
        rf = op.get("rfault")
        if rf:
            c = simfs.SimFS(data, type(sub)())
            c.only = fs.only
            try:
                with c:
                    self.readback(data, op, ob)
            except Exception:
                pass
            fs.set_faults([[int(rf[0] * c.nstep), rf[1], rf[2]]])
        n0 = sum(sub.faults.values())
        try:
            with fs:
                res = self.readback(data, op, ob)
            err = None
        except (Exception, KeyboardInterrupt) as e:
            err = e
        fired = sum(sub.faults.values()) > n0 and rf[1] != "short"
        sub.evals += 1
        sub.ev("read", k, op["fmt"], op["spec"]["kind"], type(err).__name__)
        tag = "%s:%s" % (op["fmt"], op["spec"]["kind"])
        if err is not None:
            if not fired:
                sub.violate("exported-file-unreadable:" + tag, repr(err))
            return
        sub.probe("read_back")
        for what, got, want in res:
            same = got.shape == want.shape and (
                got.size == 0 or np.array_equal(
                    got.astype(float), want.astype(float), equal_nan=True))
            sub.expect(same, "exported-data-differ:" + tag,
                       lambda: "%s: %s -> %s" % (what, want, got))

    def simplify(self, plan):
        for k, op in enumerate(plan["ops"]):
            for key in ("fault", "rfault"):
                if op.get(key):
                    p = json.loads(json.dumps(plan))
                    p["ops"][k].pop(key)
                    yield p


PROPERTY = C17()

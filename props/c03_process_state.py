"""C03: file operations leave the process as they found it."""
import gc
import os
import shutil
import signal
import sys
import warnings

from sim.core import Property
from sim import simfs


class C03(Property):
    id = "C03"
    level = "fault_enumeration"
    runs = {"quick": 1500, "thorough": 15000}
    rule = ("A run performs 3-8 file operations (native save/load, "
            "concatenation, text, matlab and picture import/export, instrument "
            "picture and vector import, memoized calls) in one process; most "
            "meet a fault at a random I/O step (ENOSPC, EIO, interrupt), a "
            "missing or damaged file or an object that cannot be stored. "
            "Garbage collector on or off, as drawn. Non-trivial: an operation "
            "failed or a fault fired.")
    sig_measure = "distinct (operation, fault kind, I/O step, outcome)"
    real = ["file_operation", "utils.memoize_to_file", "pickle", "gzip",
            "scipy.io", "imageio"]
    stub = ["raw file objects (fault injector)", "the ReadIM reader"]
    assumptions = ["a descriptor only kept alive by a collected exception is "
                   "not a leak"]
    shrink_lists = ("ops",)

    OPS = ["save_c", "save_u", "load_c", "load_u", "save_bad_c", "save_bad_u",
           "load_damaged", "load_missing", "load_ext", "concat", "ascii_out",
           "ascii_in", "mat_out", "mat_in", "pic_in", "pics_in", "memo_call",
           "memo_decorate", "im7s", "vc7s", "save_nodir", "im7_to_imt"]

    def setup(self):
        global objs, imtio, memo, np, imageio
        from sim import objs, fakereadim
        from IMTreatment import file_operation as imtio
        from IMTreatment.utils import memoize_to_file as memo
        import numpy as np
        import imageio
        import PIL.Image
        PIL.Image.init()
        fakereadim.install()

    def gen(self, rng, i, tier):
        ops = []
        faulty = rng.random() < .75
        for _ in range(rng.randint(3, 8)):
            op = {"op": rng.choice(self.OPS),
                  "seed": rng.randrange(1 << 20)}
            if faulty and rng.random() < .6:
                op["fault"] = [round(rng.random(), 3),
                               rng.choice(["enospc", "eio", "eio",
                                           "interrupt", "short"]),
                               rng.choice([0., .5, 1.])]
            ops.append(op)
        return {"ops": ops, "gc": rng.random() < .6}

    @staticmethod
    def state():
        fds = []
        for fd in sorted(os.listdir("/proc/self/fd"), key=int):
            try:
                fds.append((fd, os.readlink("/proc/self/fd/" + fd)))
            except OSError:
                pass
        return {"garbage-collector": gc.isenabled(), "descriptors": fds,
                "directory": os.getcwd(), "numpy-errors": dict(np.geterr()),
                "stdout": id(sys.stdout), "stderr": id(sys.stderr),
                "stdin": id(sys.stdin),
                "recursion-limit": sys.getrecursionlimit(),
                "sigint": str(signal.getsignal(signal.SIGINT)),
                "warning-filters": repr(warnings.filters)}

    def prepare(self, d):
        import random
        from sim import fakereadim
        r = random.Random(5)
        sf = objs.build(objs.gen_spec(r, "SF", nx=4, ny=5, mask="none"))
        self.o = {k: objs.build(objs.gen_spec(r, k, n=4))
                  for k in ("SF", "VF", "PROF", "PTS", "CP", "TSF")}
        imtio.export_to_file(self.o["VF"], d + "/in.cimt")
        imtio.export_to_file(self.o["VF"], d + "/in.imt", compressed=False)
        b = open(d + "/in.cimt", "rb").read()
        open(d + "/hurt.cimt", "wb").write(b[:len(b) // 2])
        open(d + "/text.txt", "w").write("1\t2\n")
        os.mkdir(d + "/set")
        for i in range(2):
            imtio.export_to_file(sf, d + "/set/f%d" % i)
        imtio.export_to_ascii(self.o["VF"], d + "/in_vf.txt")
        imtio.export_to_ascii(sf, d + "/in_sf.txt")
        imtio.export_to_matlab(sf, d + "/in_sf.mat")
        os.mkdir(d + "/im7")
        os.mkdir(d + "/vc7")
        a = [[1., 2.], [3., 4.], [5., 6.]]
        for i in range(2):
            imageio.imwrite(d + "/z_%d.png" % i,
                            np.arange(12).reshape(3, 4).astype("uint8"))
            open(d + "/im7/B%d.im7" % i, "w").write(
                fakereadim.im7(a, dt="0.5 s"))
            open(d + "/vc7/B%d.vc7" % i, "w").write(
                fakereadim.vc7(a, a, dt="0.5 s"))
        os.mkdir(d + "/out")
        self.f = memo(d + "/out/m.gz")(self.plain)

    @staticmethod
    def plain(x):
        return [x] * 300

    def call(self, d, op):
        name, s = op["op"], op["seed"]
        kinds = ["SF", "VF", "PROF", "PTS", "CP", "TSF"]
        ob = self.o[kinds[s % 6]]
        bad = {"a": np.arange(3000.), "b": (lambda: 1)}
        out = d + "/out/x%d" % (s % 3)
        if name == "save_c":
            return imtio.export_to_file(ob, out)
        if name == "save_u":
            return imtio.export_to_file(ob, out, compressed=False)
        if name == "save_bad_c":
            return imtio.export_to_file(bad, out)
        if name == "save_bad_u":
            return imtio.export_to_file(bad, out, compressed=False)
        if name == "save_nodir":
            return imtio.export_to_file(ob, d + "/nodir/x")
        if name == "load_c":
            return imtio.import_from_file(d + "/in.cimt")
        if name == "load_u":
            return imtio.import_from_file(d + "/in.imt")
        if name == "load_damaged":
            return imtio.import_from_file(d + "/hurt.cimt")
        if name == "load_missing":
            return imtio.import_from_file(d + "/missing.imt")
        if name == "load_ext":
            return imtio.import_from_file(d + "/text.txt")
        if name == "concat":
            return imtio.imts_to_imt(d + "/set", out, "TSF")
        if name == "ascii_out":
            return imtio.export_to_ascii(self.o[kinds[s % 5]], out + ".txt")
        if name == "ascii_in":
            if s % 2:
                return imtio.import_sf_from_ascii(d + "/in_sf.txt")
            return imtio.import_vf_from_ascii(d + "/in_vf.txt")
        if name == "mat_out":
            return imtio.export_to_matlab(self.o[kinds[s % 5]], out + ".mat")
        if name == "mat_in":
            return imtio.import_from_matlab(d + "/in_sf.mat", "ScalarField")
        if name == "pic_in":
            return imtio.import_from_picture(d + "/z_0.png")
        if name == "pics_in":
            return imtio.import_from_pictures(d + "/z_*.png",
                                              verbose=bool(s % 2))
        if name == "memo_call":
            return self.f(s % 4)
        if name == "memo_decorate":
            return memo(d + ("/out/m.gz", "/hurt.cimt")[s % 2])(self.plain)
        if name == "im7s":
            return imtio.import_from_IM7s(d + "/im7")
        if name == "vc7s":
            return imtio.import_from_VC7s(d + "/vc7", verbose=bool(s % 2))
        if name == "im7_to_imt":
            return imtio.IM7_to_imt(d + "/im7", d + "/out", kind="SF")
        raise ValueError(name)

    # operations that fail by themselves
    FAILING = {"save_bad_c", "save_bad_u", "save_nodir", "load_damaged",
               "load_missing", "load_ext"}

    def execute(self, plan, log):
        import contextlib
        import io
        d = simfs.scratch()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self.prepare(d)
                # warm up lazily loaded modules
                import PIL.Image
                gc.collect()
                if plan["gc"]:
                    gc.enable()
                else:
                    gc.disable()
                for k, op in enumerate(plan["ops"]):
                    self.one(d, k, op, log)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def one(self, d, k, op, log):
        fs = simfs.SimFS(d, log)
        fault = op.get("fault")
        if fault:
            # calibrate on a copy, without faults
            d2 = simfs.scratch()
            shutil.rmtree(d2)
            shutil.copytree(d, d2)
            g = gc.isenabled()
            keep = self.f
            self.f = memo(d2 + "/out/m.gz")(self.plain)
            c = simfs.SimFS(d2, __import__("sim.core").core.Log())
            try:
                with c:
                    self.call(d2, op)
            except Exception:
                pass
            self.f = keep
            shutil.rmtree(d2)
            (gc.enable if g else gc.disable)()
            at = min(max(c.nstep - 1, 0), int(fault[0] * c.nstep))
            fs.set_faults([[at, fault[1], fault[2]]])
            log.sig(op["op"], fault[1], at)
        gc.collect()
        before = self.state()
        n0 = sum(log.faults.values())
        try:
            with fs:
                self.call(d, op)
            out = "ok"
        except (Exception, KeyboardInterrupt) as e:
            out = type(e).__name__
            del e
        fired = sum(log.faults.values()) > n0
        g = gc.isenabled()
        gc.collect()
        after = self.state()
        after["garbage-collector"] = g
        log.evals += 1
        log.ev(k, op["op"], fault[1] if fault else "-", out)
        if out != "ok" or fired:
            log.nontrivial = True
        for key in before:
            if before[key] != after[key]:
                msg = "%s (%s, fault %s): %s -> %s" % (
                    op["op"], out, fault, before[key], after[key])
                log.violate("process-state-changed:%s:%s"
                            % (key, "after-failure" if out != "ok" or fired
                               else "after-success"), msg)
        if fault and fault[1] == "short":
            fired = False       # short reads and writes are no errors
        if not fired and out != "ok" and op["op"] not in self.FAILING:
            log.violate("operation-failed:%s:%s" % (op["op"], out),
                        "without any fault during it")


PROPERTY = C03()

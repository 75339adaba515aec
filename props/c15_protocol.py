"""C15: the staged protocol picks up where it was stopped."""
import contextlib
import io
import json
import os
import random
import re
import shutil
import warnings

from sim.core import Property
from sim import simfs

STEPS = 70          # I/O steps of a whole computation, about
LINES = 130         # lines of the protocol, about
NAME = "case"


class C15(Property):
    id = "C15"
    level = "fault_enumeration"
    runs = {"quick": 900, "thorough": 12000}
    wall = {"quick": 240.0, "thorough": 2400.0}
    rule = ("A run puts drawn measurements on the disk and calls "
            "compute_everything and recompute_everything (on changed "
            "measurements) 1-4 times, in one or several process lives, with "
            "a kill, interrupt, full disk or read error at a drawn I/O step "
            "or line of the protocol, drawn free memory and process pools; a "
            "last call without fault finishes. Then every result file is "
            "compared with the same chain of library calls made in memory, "
            "and finished steps must not have been written again. "
            "Non-trivial: a fault fired, or everything was computed.")
    sig_measure = ("distinct (call, fault kind, files present when it fired, "
                   "outcome)")
    real = ["protocols.POD_CP_protocol, native files, modal decomposition, "
            "critical points, trajectories, displays", "process death"]
    stub = ["raw file objects (fault injector)", "savefig (writes a few "
            "bytes instead of a rendered picture)", "the displays, in 94 % "
            "of the runs", "process pool", "free memory"]
    shrink_lists = ("ops",)

    def setup(self):
        global np, plt, IMT, imtio, protocols, pod, vod, psutil, near, raw
        global simpool, multiprocess, multiprocessing, lines, Axes
        global FigureCanvasBase
        import matplotlib
        matplotlib.use("Agg")
        import numpy as np
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        from matplotlib.backend_bases import FigureCanvasBase
        import psutil
        import multiprocess
        import multiprocess.pool
        import multiprocessing
        import multiprocessing.pool
        import IMTreatment as IMT
        from IMTreatment.file_operation import file_operation as imtio
        from IMTreatment.protocols import protocols
        from IMTreatment.pod import pod
        from IMTreatment.vortex_detection import vortex_detection as vod
        from sim.observe import near, raw
        from sim import simpool, lines
        plt.figure()
        plt.plot([1, 2])
        plt.close("all")

    # -- plans -----------------------------------------------------------------
    def gen(self, rng, i, tier):
        n = rng.randint(4, 8)
        nx, ny = rng.randint(6, 8), rng.randint(6, 7)
        par = {"hard_crop": rng.random() < .5,
               "pod_coh": rng.choice([-1e3, "some"]),
               "red_fact": rng.choice([1., 1., .5]) if n > 5 else 1.,
               "det_fact": rng.choice([1, 1, 2]),
               "nmb_min_in_traj": rng.choice([1, 2]),
               "eps_traj": rng.choice([15., 3.]),
               "thread": rng.choice([1, 1, 2, "all"])}
        if rng.random() < .4:
            par["crop_x"] = [.5, nx - 1.5]
        if rng.random() < .4:
            par["crop_y"] = [.5, ny]
        if rng.random() < .3 and par["red_fact"] == 1.:
            par["crop_t"] = [.05, 10.]
        if rng.random() < .5:
            par["mirroring"] = rng.choice([None, [["x", -2.]]])
        ops = []
        much = 1.5 if par["det_fact"] > 1 else 1.
        for k in range(rng.choice([1, 2, 2, 3, 4])):
            op = {"do": "compute"}
            if k and rng.random() < .25:
                op["do"] = "recompute"
                op["data"] = rng.choice([None, rng.randrange(1 << 30)])
            if rng.random() < .85:
                r = rng.random()
                if r < .5:
                    op["io"] = [rng.randrange(int(STEPS*much)), rng.choice(
                        ["crash", "crash", "crash", "enospc", "eio",
                         "interrupt", "short"]), rng.choice([0., .5, 1.])]
                elif r < .9:
                    op["line"] = [rng.randrange(int(LINES*much)), rng.choice(
                        ["crash", "interrupt", "memory"])]
                else:
                    op["pool"] = rng.randrange(8)
            op["restart"] = rng.random() < .5
            ops.append(op)
        return {"n": n, "nx": nx, "ny": ny, "seed": rng.randrange(1 << 30),
                "mask": rng.choice([0, 0, 1, 2]), "par": par, "ops": ops,
                "mem": rng.randrange(1 << 30),
                "pictures": rng.random() < .06}

    def simplify(self, plan):
        def clone():
            return json.loads(json.dumps(plan))
        for k, op in enumerate(plan["ops"]):
            for key in ("io", "line", "pool"):
                if op.get(key):
                    p = clone()
                    p["ops"][k].pop(key)
                    yield p
        for key in ("crop_x", "crop_y", "crop_t", "mirroring"):
            if key in plan["par"]:
                p = clone()
                p["par"].pop(key)
                yield p
        for key, v in (("det_fact", 1), ("thread", 1), ("red_fact", 1.)):
            if plan["par"][key] != v:
                p = clone()
                p["par"][key] = v
                yield p

    # -- measurements and what has to come out ------------------------------
    def data(self, plan, seed):
        rs = np.random.RandomState(seed % (1 << 31))
        x, y = np.arange(plan["nx"])*1., np.arange(plan["ny"])*1.
        X, Y = np.meshgrid(x, y, indexing="ij")
        x0, y0, dx = rs.uniform(2, 4), rs.uniform(2, 4), rs.uniform(.2, .5)
        t = IMT.TemporalVectorFields()
        mask = np.zeros(X.shape, bool)
        if plan["mask"]:
            mask[:plan["mask"] - 1 or 1, :] = True
        for k in range(plan["n"]):
            f = IMT.VectorField()
            a, b = rs.uniform(.1, .4, 2)
            f.import_from_arrays(
                x, y, -(Y - y0) + a*np.sin(k + X),
                (X - x0 - dx*k) + b*np.cos(2*k + Y), mask=mask,
                unit_x="m", unit_y="m", unit_values="m/s")
            t.add_field(f, round(.1*k, 3), "s")
        return t

    def reference(self, plan, seed, tail=None):
        """The chain of library calls, in memory."""
        par = plan["par"]
        tail = tail or self.tail
        tvf = self.data(plan, seed)
        if par["hard_crop"]:
            tvf.crop_masked_border(hard=True, inplace=True)
        else:
            tvf.crop_masked_border(inplace=True)
        inf = [-np.inf, np.inf]
        tvf.crop(intervx=par.get("crop_x", inf), intervy=par.get(
            "crop_y", inf), intervt=par.get("crop_t", inf), inplace=True)
        if par["red_fact"] < 1:
            tvf.reduce_temporal_resolution(
                int(np.round(1./par["red_fact"])), mean=False, inplace=True)
        mean = tvf.get_mean_field()
        mean.crop_masked_border(hard=False, inplace=True)
        out = {"_cln": tvf, "_mean": mean}
        dec = pod.modal_decomposition(tvf, kind="pod", wanted_modes="all",
                                      max_vecs_per_node=len(tvf) + 1,
                                      verbose=False)
        out["_pod"] = dec
        tail(plan, dec.copy(), out, "")
        if par["det_fact"] > 1:
            d = dec.copy()
            d.augment_temporal_resolution(fact=par["det_fact"],
                                          interp="linear", inplace=True)
            tail(plan, d, out, "_det")
        return {k: raw(v) for k, v in out.items()}

    def threshold(self, plan, seed):
        """A coherence between those of the modes that may be used."""
        if any(op.get("data") for op in plan["ops"]):
            return -1e3
        plan["par"]["pod_coh"] = -1e9
        coh = []

        def look(plan, dec, out, suffix):
            c = np.asarray(dec.get_spatial_coherence(raw=True))
            coh.append(c[:int(np.ceil(len(dec.modes)/2.))])
        self.reference(plan, seed, look)
        c = np.sort(coh[0])
        if len(c) < 2 or len(coh) > 1:
            return -1e3
        return float((c[len(c)//2] + c[len(c)//2 - 1])/2)

    def tail(self, plan, dec, out, suffix):
        par = plan["par"]
        modes = np.array(dec.modes_nmb[dec.get_spatial_coherence(raw=True)
                                       > par["pod_coh"]])
        modes = modes[modes < len(dec.modes)/2.]
        rec = dec.reconstruct(wanted_modes=modes)
        out["_rec" + suffix] = rec
        cp = vod.get_critical_points(
            rec.copy(), kind="pbi", thread=1, verbose=False,
            mirroring=par.get("mirroring", [["y", 0], ["x", 0]]))
        cp.compute_traj(epsilon=par["eps_traj"])
        cp.clean_traj(par["nmb_min_in_traj"])
        out["_traj" + suffix] = cp

    def wanted(self, plan):
        det = plan["par"]["det_fact"] > 1
        files = ["_mean", "_cln", "_pod", "_rec", "_traj"]
        pics = ["mean_field", "pod", "rec", "traj_x_cln", "traj_y_cln"]
        if det:
            files += ["_rec_det", "_traj_det"]
            pics += ["rec_det", "traj_x_cln_det", "traj_y_cln_det"]
        return files, pics

    # -- execution ---------------------------------------------------------
    def execute(self, plan, log):
        root = simfs.scratch()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with contextlib.redirect_stdout(io.StringIO()):
                    self._run(plan, log, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def source(self, root):
        return os.path.join(root, "imt", NAME + ".cimt")

    def stat(self, root):
        out = {}
        for f in sorted(os.listdir(os.path.join(root, "imt"))):
            if not re.fullmatch(NAME + r"(_[a-z]+)*\.cimt", f):
                continue        # (left by a killed save)
            s = os.stat(os.path.join(root, "imt", f))
            out[f] = (s.st_ino, s.st_mtime_ns)
        return out

    def _run(self, plan, log, root):
        os.makedirs(root + "/imt")
        os.makedirs(root + "/res")
        seed = plan["seed"]
        plan = json.loads(json.dumps(plan))
        if plan["par"]["pod_coh"] == "some":
            plan["par"]["pod_coh"] = self.threshold(plan, seed)
        try:
            ref = self.reference(plan, seed)
        except Exception as ex:
            log.probe("data_without_result:" + type(ex).__name__)
            log.ev("no reference", repr(ex))
            return
        imtio.export_to_file(self.data(plan, seed), self.source(root))
        todo = [dict(op) for op in plan["ops"]]
        todo.append({"do": "compute", "restart": True})
        todo.append({"do": "compute", "restart": False})
        pending = False             # a recomputation was stopped
        while todo and not log.violations:
            if pending:
                todo[0]["do"] = "recompute"
                if len(todo) == 2:
                    todo.append({"do": "compute", "restart": False})
            if todo[0]["do"] == "recompute" and todo[0].get("data"):
                seed = todo[0]["data"]
                try:
                    ref = self.reference(plan, seed)
                except Exception:
                    return
                imtio.export_to_file(self.data(plan, seed),
                                     self.source(root))
            group = [todo[0]]
            for op in todo[1:]:
                if op["restart"] or "recompute" in (op["do"],
                                                    group[0]["do"]):
                    break
                group.append(op)
            with open(self.source(root), "rb") as f:
                src = f.read()

            def one(report, sub, die):
                with contextlib.redirect_stdout(io.StringIO()):
                    self._life(plan, root, group, report, sub, die)
            msgs, crashed = simfs.life(one, log)
            started = [m for m in msgs if m[0] == "start"]
            acked = [m[1] for m in msgs if m[0] == "ack"]
            del todo[:len(started)]
            if group[0]["do"] == "recompute":
                pending = len(started) - 1 not in acked
            with open(self.source(root), "rb") as f:
                log.expect(f.read() == src, "measurements-altered", "")
        if log.violations:
            return
        log.nontrivial = True
        # the results, read by another process
        def read(report, sub, die):
            files, pics = self.wanted(plan)
            for k in files:
                sub.evals += 1
                try:
                    ob = imtio.import_from_file("%s/imt/%s%s.cimt" % (
                        root, NAME, k))
                except Exception as ex:
                    sub.violate("result-missing:" + k, repr(ex))
                    continue
                sub.expect(near(raw(ob), ref[k]), "result-differs:" + k,
                           "not what the steps give on these measurements")
            for k in pics:
                sub.evals += 1
                p = "%s/res/%s/%s.png" % (root, NAME, k)
                ok = os.path.exists(p)
                if ok:
                    with open(p, "rb") as f:
                        ok = f.read() == PICTURE
                sub.expect(ok, "picture-missing:" + k, p[len(root):])
        simfs.life(read, log)

    def _life(self, plan, root, group, report, sub, die):
        par = dict(plan["par"])
        if "mirroring" not in par:
            pass
        fs = simfs.SimFS(root, sub)
        fs.on_crash = die
        rng = random.Random(plan["mem"])
        undo = self.seams(rng, plan["pictures"])
        ctl = {"rng": rng, "log": sub, "cpus": 3}
        undo.append(simpool.install(
            [vod, multiprocess, multiprocessing, multiprocess.pool,
             multiprocessing.pool], ctl))
        prot = None
        try:
            for k, op in enumerate(group):
                report("start", k)
                if prot is None or op["restart"]:
                    prot = protocols.POD_CP_protocol(
                        NAME, root + "/imt", root + "/res", **par)
                self._call(plan, root, op, k, prot, fs, ctl, report, sub,
                           die)
                if sub.violations:
                    return
        finally:
            for u in undo:
                u()

    def seams(self, rng, pictures=False):
        out = []

        def put(o, n, v):
            old = getattr(o, n)
            setattr(o, n, v)
            out.append(lambda: setattr(o, n, old))

        def savefig(path, *a, **k):
            with open(path, "wb") as f:
                f.write(PICTURE[:9])
                f.flush()
                f.write(PICTURE[9:])
        put(plt, "savefig", savefig)
        put(plt.Figure, "savefig", lambda fig, path, *a, **k: savefig(path))

        class Mem(object):
            free = 0
        mode = rng.choice(["same", "less", "little", "more"])

        def memory():
            m = Mem()
            m.free = {"same": 10**9, "less": 10**9, "more": 10**9,
                      "little": 5000}[mode]
            if mode in ("less", "little"):
                m.free -= rng.randrange(1, 4000)
            elif mode == "more":
                m.free += rng.randrange(10**6)
            m.available = m.free
            m.total = 2*10**9
            return m
        put(psutil, "virtual_memory", memory)
        put(psutil, "cpu_count", lambda *a, **k: 3)
        put(FigureCanvasBase, "draw_idle", lambda *a, **k: None)
        if not pictures:
            for cls, n in ((IMT.VectorField, "display"),
                           (IMT.Profile, "display"),
                           (pod.ModalFields, "display"),
                           (vod.CritPoints, "display_traj")):
                put(cls, n, lambda *a, **k: plt.gcf())
        real = Axes.streamplot

        def stream(ax, *a, **k):
            k["density"] = .3
            return real(ax, *a, **k)
        put(Axes, "streamplot", stream)
        return out

    def _call(self, plan, root, op, k, prot, fs, ctl, report, sub, die):
        before = self.stat(root)
        fs.set_faults([op["io"]] if op.get("io") else [])
        ctl["fail_at"] = op.get("pool")
        line = op.get("line")

        def act(j, frame):
            if line and j == line[0]:
                sub.fault("line_" + line[1])
                if line[1] == "crash":
                    die()
                elif line[1] == "interrupt":
                    raise KeyboardInterrupt("injected")
                raise MemoryError("injected")
        n0 = sum(sub.faults.values())
        fn = prot.compute_everything if op["do"] == "compute" else \
            prot.recompute_everything
        kind = (op.get("io") or line or [0, "pool" if "pool" in op
                                         else "none"])[1]
        sub.sig(op["do"], kind, sorted(before))
        # (the lines of the protocol only: everything else is reached
        # through the I/O steps)
        steps = lines.LineSteps(act, lambda code: code.co_filename.endswith(
            "protocols.py"))
        try:
            with fs:
                if line:
                    with steps:
                        fn()
                else:
                    fn()
            err = None
        except (Exception, KeyboardInterrupt) as e:
            err = e
        plt.close("all")
        fired = sum(sub.faults.values()) > n0
        harmless = fired and kind == "short"
        sub.evals += 1
        sub.ev(op["do"], kind, sorted(before), "fired", fired,
               type(err).__name__)
        sub.sig(op["do"], kind, len(before), type(err).__name__)
        if err is not None and (not fired or harmless):
            sub.violate("protocol-fails:%s:%s" % (op["do"],
                                                  type(err).__name__),
                        "%r though nothing failed" % err)
            return
        if err is None:
            report("ack", k)
            sub.expect(not fired or harmless, "failure-swallowed:%s"
                       % op["do"], kind)
            sub.probe("completed")
        else:
            sub.probe("stopped")
        # what was finished before is not made again
        after = self.stat(root)
        if op["do"] == "compute":
            for s in ("_cln", "_pod", "_rec", "_traj", "_rec_det",
                      "_traj_det"):
                f = NAME + s + ".cimt"
                if f in before:
                    sub.expect(after.get(f) == before[f],
                               "finished-step-made-again:" + s, "")


PICTURE = b"PNG picture, complete\n"
PROPERTY = C15()

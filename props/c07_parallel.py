"""C07: parallel critical point detection gives what the sequential one
gives, for every number of processes and every schedule."""
import contextlib
import io
import json
import random
import warnings

from sim.core import Property


class C07(Property):
    id = "C07"
    level = "exploration"
    runs = {"quick": 1500, "thorough": 20000}
    rule = ("A run detects critical points of a drawn field or sequence of "
            "fields one field at a time (reference), then sequentially, with "
            "1-16 processes and with 'all', under drawn assignments of the "
            "tasks to processes, completion orders and pickling times; "
            "faults: a task fails in its process, the pool cannot start, an "
            "interrupt arrives while waiting; the detection is repeated "
            "after a failure. Non-trivial: at least two tasks, or a fault.")
    sig_measure = "distinct (pool size, chunk, process that ran it)"
    real = ["get_critical_points, CritPoints, VF.get_cp_position",
            "dill transport and isolated memory of the processes"]
    stub = ["multiprocess.Pool (seeded schedule; one process runs at a "
            "time)", "cpu count"]
    assumptions = ["a process of the pool is not killed by the system (the "
                   "standard pool then waits for ever)"]
    shrink_lists = ("calls",)

    def setup(self):
        global np, IMT, vod, dig, near, raw, simpool, multiprocess, multiprocessing
        from sim import simpool
        from sim.observe import dig, near, raw
        import numpy as np
        import IMTreatment as IMT
        import IMTreatment.vortex_detection.vortex_detection as vod
        import multiprocess
        import multiprocess.pool
        import multiprocessing
        import multiprocessing.pool
        from IMTreatment.vortex_detection.levelset_data import get_sol
        get_sol()

    def gen(self, rng, i, tier):
        kind = rng.choice(["pbi", "pbi", "pbi", "pbi_cell", "pbi_crit",
                           "gam_vort"])
        plan = {"n": rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 9]),
                "single": rng.random() < .3, "kind": kind,
                "nx": rng.randint(5, 9), "ny": rng.randint(5, 9),
                "seed": rng.randrange(1 << 30),
                "flow": rng.choice(["noise", "waves", "zeros", "vortex"]),
                "window": rng.choice([2, 4, 4]), "calls": []}
        if rng.random() < .25:
            plan["mirror"] = [[rng.choice("xy"), rng.choice([0, 1])]
                              for _ in range(rng.randint(1, 2))]
            plan["interp"] = rng.choice(["linear", "value", "nearest"])
        if rng.random() < .25:
            plan["smooth"] = rng.choice([1, 1.5, 2])
        for _ in range(rng.randint(2, 4)):
            c = {"thread": rng.choice([1, 2, 2, 3, 4, 8, 16, "all"]),
                 "sched": rng.randrange(1 << 30),
                 "cpus": rng.choice([1, 2, 3, 8]),
                 "verbose": rng.random() < .2}
            r = rng.random()
            if r < .15:
                c["fail_at"] = rng.randrange(8)
            elif r < .2:
                c["start_error"] = True
            elif r < .27:
                c["interrupt"] = True
            plan["calls"].append(c)
        return plan

    def build(self, plan):
        rs = np.random.RandomState(plan["seed"] % (1 << 31))
        ax = np.arange(plan["nx"])*.5 + 1.
        ay = np.arange(plan["ny"])*.7 - 2.
        X, Y = np.meshgrid(ax, ay, indexing="ij")
        t = IMT.TemporalVectorFields()
        n = 1 if plan["single"] else plan["n"]
        for k in range(n):
            if plan["flow"] == "noise":
                vx, vy = rs.randn(*X.shape), rs.randn(*X.shape)
            elif plan["flow"] == "vortex":
                x0 = rs.uniform(ax[1], ax[-2])
                y0 = rs.uniform(ay[1], ay[-2])
                s = rs.choice([-1, 1])
                vx, vy = -s*(Y - y0), s*(X - x0)
            else:
                a = rs.uniform(0, 6, 4)
                vx = np.sin(2*X + a[0])*np.cos(2*Y + a[1])
                vy = np.cos(2*X + a[2])*np.sin(1.7*Y + a[3])
            if plan["flow"] == "zeros":
                m = rs.uniform(size=X.shape) < .1
                vx[m] = 0
                vy[rs.uniform(size=X.shape) < .1] = 0
            f = IMT.VectorField()
            f.import_from_arrays(ax, ay, vx, vy, mask=False, unit_x="m",
                                 unit_y="m", unit_values="m/s")
            t.add_field(f, k*.5 + 1, unit_times="s")
        return t

    def kwargs(self, plan, t):
        kw = {"kind": plan["kind"], "window_size": plan["window"]}
        if plan.get("mirror") and len(t.fields):
            f = t.fields[0]
            kw["mirroring"] = [[d, float((f.axe_x if d == "x" else f.axe_y)
                                         [-1 if e else 0])]
                               for d, e in plan["mirror"]]
            kw["mirror_interp"] = plan["interp"]
        if plan.get("smooth"):
            kw["smoothing_size"] = plan["smooth"]
        return kw

    @staticmethod
    def frames(cp):
        """time -> digest of every kind of point."""
        if not isinstance(cp, vod.CritPoints):
            return "not critical points: %s" % type(cp).__name__
        return [[float(t)] + [raw([p.xy, p.v] + ([p.orientations] if hasattr(
            p, "orientations") else [])) for p in
            (cp.foc[i], cp.foc_c[i], cp.node_i[i], cp.node_o[i], cp.sadd[i])]
            for i, t in enumerate(cp.times)]

    def execute(self, plan, log):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()):
                self._run(plan, log)

    def _run(self, plan, log):
        t = self.build(plan)
        obj = t.fields[0] if plan["single"] else t
        kw = self.kwargs(plan, t)
        # the reference: every field on its own, on a copy
        ref, bad = [], None
        for f, tm in zip(t.fields, t.times):
            try:
                cp = vod.get_critical_points(
                    f.copy(), time=float(tm), unit_time="s", thread=1, **kw)
                ref += self.frames(cp)
            except Exception as e:
                bad = e
        if plan["single"]:
            kw.update(time=float(t.times[0]), unit_time="s")
        before = dig(obj)
        log.ev(plan["kind"], len(t.fields), bool(bad), len(ref))
        if len(t.fields) > 1:
            log.nontrivial = True
        for k, c in enumerate(plan["calls"]):
            ctl = {"rng": random.Random(c["sched"]), "log": log,
                   "cpus": c["cpus"], "fail_at": c.get("fail_at"),
                   "start_error": c.get("start_error"),
                   "interrupt": c.get("interrupt")}
            undo = simpool.install([vod, multiprocess, multiprocessing,
                                    multiprocess.pool, multiprocessing.pool],
                                   ctl)
            n0 = sum(log.faults.values())
            try:
                r = vod.get_critical_points(obj, thread=c["thread"],
                                            verbose=c["verbose"], **kw)
                err = None
            except (Exception, KeyboardInterrupt) as e:
                err = e
            finally:
                undo()
            fired = sum(log.faults.values()) > n0
            log.evals += 1
            log.ev(k, c["thread"], "fired", fired, type(err).__name__)
            if fired:
                log.nontrivial = True
            tag = "%s:%s" % (plan["kind"], "one-field" if plan["single"]
                             else "sequence")
            if err is not None:
                if fired or bad is not None:
                    if fired:
                        log.probe("failed_as_expected")
                else:
                    if isinstance(err, Exception):
                        raise err
                    log.violate("unexpected-interrupt", repr(err))
            else:
                log.expect(bad is None, "error-lost:" + tag,
                           "alone: %r" % bad)
                if fired and c.get("fail_at") is not None:
                    log.violate("failed-task-ignored:" + tag, "")
                got = self.frames(r)
                if bad is None:
                    log.expect(near(got, ref), "differs-from-field-by-field:"
                               + tag, lambda: "%s processes: %s frames "
                               "instead of %d; first difference %s" % (
                                   c["thread"], len(got), len(ref),
                                   [i for i, (a, b) in enumerate(
                                       zip(got, ref)) if not near(a, b)][:1]))
            log.expect(dig(obj) == before, "operand-altered:" + tag,
                       "%s processes" % c["thread"])
            if log.violations:
                return

    def simplify(self, plan):
        def var(**kw):
            p = json.loads(json.dumps(plan))
            for a, v in kw.items():
                if v is None:
                    p.pop(a, None)
                else:
                    p[a] = v
            return p
        for key in ("mirror", "smooth"):
            if plan.get(key):
                yield var(**{key: None})
        if plan["n"] > 1:
            yield var(n=plan["n"] - 1)


PROPERTY = C07()

"""C10: progress reporting is right and harmless, whatever the clock does."""
import contextlib
import io
import json
import os
import random
import re
import shutil
import time

from sim.core import Property
from sim import simfs

NUM = r"(?:(\d+)j)?(?:(\d+)h)?(?:(\d+)mn)?(\d+)s"


def seconds(txt):
    """Inverse of the displayed duration: (seconds, resolution)."""
    m = re.fullmatch(r"(\d+)ms", txt)
    if m:
        return int(m.group(1)) / 1000., .001
    m = re.fullmatch(NUM, txt)
    if not m:
        return None
    j, h, mn, s = [int(x or 0) for x in m.groups()]
    return ((j*24. + h)*60 + mn)*60 + s, 1.


class Clock(object):
    """Simulated clock: every reading advances or jumps as drawn."""

    def __init__(self, rng, style):
        self.rng = rng
        self.style = style
        self.now = 1.6e9 + rng.random()
        self.mono = 1000. + rng.random()
        self.reads = 0
        self.jumps = 0

    def advance(self):
        """Time passing between two steps of the operation."""
        r = self.rng
        st = self.style
        if st == "stall":
            d = 0.
        elif st == "slow":
            d = r.choice([3., 70., 4000., 90000., 200000.])*r.random()
        else:
            d = r.choice([1e-6, 1e-3, .3, 2.])*r.random()
        self.now += d
        self.mono += d
        if st == "jump" and r.random() < .3:
            self.now += r.choice([-7200., -3., 3600., 86400.*40, -86400.])
            self.jumps += 1
        return d

    def time(self):
        self.reads += 1
        return self.now

    def monotonic(self):
        return self.mono


class C10(Property):
    id = "C10"
    level = "exploration"
    runs = {"quick": 6000, "thorough": 150000}
    rule = ("A run either drives a progress counter through a drawn number of "
            "steps under a drawn clock (running, stalled, years long, jumping "
            "forward and backward), or performs a long operation with and "
            "without progress display under such a clock. Non-trivial: the "
            "clock jumped or stalled, or a verbose operation was compared.")
    sig_measure = ("distinct (clock style, number of things, interval, "
                   "operation)")
    real = ["ProgressCounter", "importers, temporal field and critical point "
            "operations with a progress display"]
    stub = ["time.time, time.monotonic, time.perf_counter (simulated clock)",
            "standard output (captured)", "ReadIM"]
    assumptions = ["durations are displayed as [j][h][mn]s or ms"]
    shrink_lists = ()

    OPS = ["pics", "vc7s", "background", "substract", "phase", "spectrum",
           "recurrence", "reduce", "cp", "refine", "radius"]

    def setup(self):
        global objs, imtio, np, dig, near, raw, IMT, PC, fakereadim, vod, imageio, vp
        from sim import objs, fakereadim
        from sim.observe import dig, near, raw
        from IMTreatment.file_operation import file_operation as imtio
        import IMTreatment as IMT
        import IMTreatment.vortex_detection.vortex_detection as vod
        import IMTreatment.vortex_properties.vortex_properties as vp
        from IMTreatment.utils import ProgressCounter as PC
        import numpy as np
        import imageio
        import PIL.Image
        PIL.Image.init()
        fakereadim.install()

    def gen(self, rng, i, tier):
        plan = {"clock": rng.choice(["run", "stall", "slow", "jump", "jump"]),
                "seed": rng.randrange(1 << 30)}
        if rng.random() < .7:
            plan.update(what="counter",
                        n=rng.choice([0, 1, 2, 3, 7, 10, 19, 20, 21, 99, 100,
                                      101, 137, 250]),
                        inf=rng.random() < .15,
                        perc=rng.choice([1, 5, 5, 10, 30, 100, 150]),
                        extra=rng.choice([0, 0, 0, 0, 1, 3]),
                        finish=rng.random() < .2,
                        end=rng.random() < .5)
        else:
            plan.update(what="op", op=rng.choice(self.OPS),
                        n=rng.choice([1, 2, 3, 4, 7]),
                        incr=rng.choice([1, 1, 2, 3, 10]))
        return plan

    @contextlib.contextmanager
    def clock(self, plan):
        c = Clock(random.Random(plan["seed"]), plan["clock"])
        old = time.time, time.monotonic, time.perf_counter
        time.time, time.monotonic = c.time, c.monotonic
        time.perf_counter = c.monotonic
        try:
            yield c
        finally:
            time.time, time.monotonic, time.perf_counter = old

    def execute(self, plan, log):
        if plan["what"] == "counter":
            self.counter(plan, log)
        else:
            d = simfs.scratch()
            try:
                self.op(plan, log, d)
            finally:
                shutil.rmtree(d, ignore_errors=True)

    # -- the counter itself ----------------------------------------------------
    def counter(self, plan, log):
        n = plan["n"]
        out = io.StringIO()
        nmax = np.inf if plan["inf"] else n
        steps = n + plan["extra"]
        if plan["finish"]:
            steps = max(0, n - 2)
        seen_end = 0
        with self.clock(plan) as c, contextlib.redirect_stdout(out):
            pg = PC("init", nmax, end_mess="over" if plan["end"] else None,
                    name_things="things", perc_interv=plan["perc"])
            t0 = None
            for i in range(1, steps + 1):
                d = c.advance()
                log.simtime += d
                if t0 is None:
                    t0 = (c.now, c.mono)
                out.seek(0)
                out.truncate()
                pg.print_progress()
                txt = out.getvalue()
                seen_end += txt.count("over")
                self.look(plan, log, txt, i, n, c, t0, i == 1)
            if plan["finish"] and steps:
                out.seek(0)
                out.truncate()
                pg.finish()
                txt = out.getvalue()
                seen_end += txt.count("over")
                if not plan["inf"]:
                    self.look(plan, log, txt, n, n, c, t0, False)
        log.evals += 1
        done = (plan["finish"] and steps > 0) or (
            not plan["inf"] and steps >= n and n > 0)
        if plan["end"]:
            log.expect(seen_end == (1 if done else 0),
                       "end-message-wrong", "%d times after %d/%s steps"
                       % (seen_end, steps, nmax))
        log.ev("counter", plan["clock"], n, steps, seen_end, c.jumps)
        log.sig(plan["clock"], n, plan["perc"], plan["inf"], plan["extra"])
        if plan["clock"] == "stall":
            log.fault("clock_stalled")
        if plan["clock"] == "slow":
            log.fault("clock_long_steps")
        if c.jumps:
            log.fault("clock_jump", c.jumps)
        log.nontrivial = plan["clock"] != "run"

    def look(self, plan, log, txt, i, n, c, t0, first):
        """What one call displayed."""
        if first:
            log.expect("init" in txt, "no-initial-message", txt)
        body = [x for x in re.split(r"[\r\n]", txt) if "things" in x]
        if plan["inf"]:
            for b in body:
                m = re.search(r"(\d+) things", b)
                log.expect(m and int(m.group(1)) == i, "wrong-count", b)
            return
        if i == n:
            log.expect(body, "last-step-not-displayed", "%d/%d" % (i, n))
        for b in body:
            m = re.search(r"\[(.*)\] +(\d+)% +(\d+)/(\d+) things +(\S+)/(\S+)",
                          b)
            if not log.expect(m, "unreadable-progress", b):
                continue
            bar, perc, cur, tot, el, left = m.groups()
            log.expect(int(cur) == i and int(tot) == n, "wrong-count", b)
            if i <= n:
                log.expect(abs(int(perc) - 100.*i/n) <= .51,
                           "wrong-percentage", b)
                log.expect(len(set(bar) - set("#.")) == 0
                           and abs(bar.count("#") - len(bar)*i/float(n))
                           <= 1.2, "wrong-bar", b)
            s = seconds(el)
            if not log.expect(s is not None, "unreadable-duration", b):
                continue
            ok = False
            for e in (c.now - t0[0], c.mono - t0[1]):
                e = max(0., e)
                ok = ok or -1e-3 <= e - s[0] < s[1] + 1e-3
            log.expect(ok, "wrong-duration",
                       lambda: "%s displayed, %g s elapsed" % (
                           el, c.now - t0[0]))
            s = seconds(left)
            if i <= n and log.expect(s is not None, "unreadable-duration", b):
                ok = False
                for e in (c.now - t0[0], c.mono - t0[1]):
                    e = max(0., e)/i*n
                    ok = ok or abs(e - s[0]) <= s[1] + 1e-3 + 1e-6*e
                log.expect(ok, "wrong-expected-duration", b)

    # -- operations with a progress display -------------------------------------
    def op(self, plan, log, d):
        n = plan["n"]
        rs = random.Random(plan["seed"])
        name = plan["op"]
        if name == "pics":
            for k in range(n):
                imageio.imwrite(d + "/p%d.png" % k, np.full(
                    (3, 4), k + 1, dtype="uint8"))

            def f(verbose):
                return imtio.import_from_pictures(d + "/p*.png",
                                                  incr=plan["incr"],
                                                  verbose=verbose)
        elif name == "vc7s":
            for k in range(n):
                open(d + "/B%d.vc7" % k, "w").write(fakereadim.vc7(
                    [[k + 1.]*3]*2, [[2.]*3]*2, dt="0.5 s"))

            def f(verbose):
                return imtio.import_from_VC7s(d, incr=plan["incr"],
                                              verbose=verbose)
        elif name in ("background", "substract", "phase", "spectrum",
                      "recurrence", "reduce"):
            t = objs.build(objs.gen_spec(
                rs, "TSF", nx=3 if name != "reduce" else 8,
                ny=4 if name != "reduce" else 9, mask="none", even=True,
                n=8 + n, dt=.5))
            ops = {
                "background": lambda v: t.get_background(.1, verbose=v),
                "substract": lambda v: t.substract_background(
                    t.get_mean_field(), .1, verbose=v),
                "phase": lambda v: t.get_phase_map(.5, verbose=v),
                "spectrum": lambda v: t.get_spectrum_map(
                    "values", verbose=v),
                "recurrence": lambda v: t.get_recurrence_map(verbose=v),
                "reduce": lambda v: t.reduce_spatial_resolution(2,
                                                                verbose=v)}
            f = ops[name]
        elif name == "cp":
            t = objs.build(objs.gen_spec(rs, "TVF", nx=6, ny=7, mask="none",
                                         even=True, n=n, ux="m", uy="m",
                                         ut="s"))

            def f(verbose):
                return vod.get_critical_points(t, kind="pbi_cell",
                                               verbose=verbose)
        elif name == "refine":
            cp = objs.build(objs.gen_spec(rs, "CP", n=max(2, n)))
            ts = objs.build(objs.gen_spec(rs, "TSF", nx=9, ny=9, n=max(2, n),
                                          dt=.5, mask="none", even=True))
            box = np.linspace(-6, 6, 9)
            for fd in ts.fields:
                fd.axe_x, fd.axe_y = box, box
            ts.axe_x, ts.axe_y = box, box

            def f(verbose):
                return cp.refine_cp_position("foc", ts, inplace=False,
                                             verbose=verbose)
        else:
            t = objs.build(objs.gen_spec(rs, "TVF", nx=7, ny=8, mask="none",
                                         even=True, n=max(2, n), ux="m",
                                         uy="m", ut="s"))
            tr = IMT.Points([[t.axe_x[3], t.axe_y[4]]]*len(t.times),
                            v=t.times)

            def f(verbose):
                return vp.get_vortex_radius_time_evolution(
                    t, tr, verbose=verbose)
        res = []
        for verbose in (False, True):
            with self.clock(plan) as c, \
                    contextlib.redirect_stdout(io.StringIO()), \
                    np.errstate(all="ignore"):
                if verbose:
                    # time passes at every clock reading
                    real = c.time

                    def ticking():
                        c.advance()
                        return real()
                    time.time = ticking
                try:
                    res.append(("ok", raw(f(verbose))))
                except Exception as e:
                    res.append(("error", type(e).__name__, str(e)[:200]))
        if c.jumps:
            log.fault("clock_jump", c.jumps)
        log.evals += 1
        log.nontrivial = True
        log.ev("op", name, n, res[0][0])
        log.sig(name, n, plan["clock"], plan["incr"], res[0][0])
        log.expect(near(res[0], res[1]), "progress-display-changes-result:"
                   + name, lambda: "%s -> %s" % (str(res[0])[:150],
                                                  str(res[1])[:150]))
        if res[0][0] == "ok":
            log.probe("verbose_operation_compared")

    def simplify(self, plan):
        for key, v in (("clock", "run"), ("n", 1), ("n", 2), ("extra", 0),
                       ("finish", False), ("incr", 1)):
            if key in plan and plan[key] != v:
                p = json.loads(json.dumps(plan))
                p[key] = v
                yield p


PROPERTY = C10()

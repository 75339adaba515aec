"""C13: objects are values - altering one never alters another one, and the
altering and returning versions of a treatment agree."""
import contextlib
import io
import json
import warnings

from sim.core import Property

POKES = {
    "SF": ["axe_x", "axe_y", "values", "mask"],
    "VF": ["axe_x", "axe_y", "comp_x", "comp_y", "mask"],
    "PTS": ["xy", "v"],
    "OPTS": ["xy", "v", "orientations"],
    "PROF": ["x", "y", "mask"],
    "TSF": ["axe_x", "axe_y", "times", "fields"],
    "TVF": ["axe_x", "axe_y", "times", "fields"],
    "SSF": ["fields"],
    "SVF": ["fields"],
    "TPTS": ["times", "point_sets"],
    "CP": ["times", "foc", "sadd"],
    "MF": ["axe_x", "axe_y", "times", "modes", "temp_evo"],
    "ARR": ["self"],
    "LIST": ["self"],
}
# hand out their own parts on purpose
PARTS = {"iterate", "read", "stats", "axes", "derived", "display",
         "display_arch", "display_traj"}


def tidy(o, kind):
    """Not empty, and no NaN among the values that are not masked."""
    if kind in ("SF", "VF") and 0 in o.shape:
        return False
    if kind == "SF":
        return not np.isnan(o.values[~o.mask]).any()
    if kind == "VF":
        return not (np.isnan(o.comp_x[~o.mask]).any()
                    or np.isnan(o.comp_y[~o.mask]).any())
    if kind == "PROF":
        return not np.isnan(o.y[~o.mask]).any()
    if kind in ("TSF", "TVF", "SSF", "SVF"):
        return all(tidy(f, kind[1:]) for f in o.fields)
    return True


class C13(Property):
    id = "C13"
    level = "exploration"
    runs = {"quick": 9000, "thorough": 90000}
    wall = {"quick": 240.0, "thorough": 2400.0}
    rule = ("A run is a history over a growing set of objects: one drawn "
            "object, then 6-14 steps: an operation that makes a new object, "
            "an altering treatment (some stopped at a drawn line), or a "
            "write of the caller into an array it passed or received. After "
            "each step every object except the altered one has to be as "
            "before; an altered one has to equal what the returning version "
            "gives on a deep copy. Non-trivial: at least one object was "
            "altered while another one existed.")
    sig_measure = "distinct (making operation, altering step) pairs"
    real = ["all of core, field_treatment, vortex_criterions, "
            "vortex_detection, pod"]
    stub = ["signal delivery (exception raised at a drawn line)"]
    assumptions = ["writing into an array obtained from an object counts as "
                   "altering that object only"]
    shrink_lists = ("steps",)

    def setup(self):
        global objs, optable, obs, dig, near, raw, diff, LineSteps, np, kind_of
        import numpy as np
        import matplotlib
        matplotlib.use("Agg")
        from sim import objs, optable
        from sim.observe import obs, dig, diff, near, raw
        from sim.lines import LineSteps
        from sim.objs import kind_of
        from IMTreatment.vortex_detection.levelset_data import get_sol
        get_sol()
        self.kinds = sorted({o.kinds for o in optable.OPS.values()})
        self.make = {k: [n for n in optable.names(k, "qn")
                         if n.split(".", 1)[1] not in PARTS]
                     for k in self.kinds}
        # (a field whose values are set after change_dtype has no one type)
        self.alter = {k: [n for n in optable.names(k, "i")
                          if not n.endswith("change_dtype!")]
                      for k in self.kinds}

    def gen(self, rng, i, tier):
        kind, j = optable.turn(i)
        spec = objs.gen_spec(rng, kind)
        steps = []
        for k in range(rng.randint(6, 14)):
            r = rng.random()
            t = "make" if (k == 0 or r < .4) else \
                "alter" if r < .7 else "poke"
            d = {"do": t, "on": rng.random(), "which": rng.random(),
                 "seed": rng.randrange(1 << 30)}
            if k == 0:
                d["turn"] = j
            if k == 1:
                d["turn2"] = j*7 + i % 7
                d["do"] = rng.choice(["alter", "alter", "poke"])
            if t == "alter" and rng.random() < .2:
                d["stop"] = rng.random()
            steps.append(d)
        return {"spec": spec, "steps": steps}

    def execute(self, plan, log):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()), \
                    np.errstate(all="ignore"):
                self._run(plan, log)

    # -- the set of objects ------------------------------------------------
    def enter(self, x, src, depth=0):
        """Adds what a caller holds now; [object, origin, snapshot]."""
        if any(x is p[0] for p in self.pool) or len(self.pool) > 40:
            return
        k = kind_of(x)
        if k is not None:
            self.pool.append([x, src, obs(x), k])
        elif isinstance(x, np.ndarray) and x.size and x.dtype.kind in "fib":
            self.pool.append([x, src, obs(x), "ARR"])
        elif isinstance(x, (list, tuple)) and depth < 2 and len(x) < 12:
            for v in x:
                self.enter(v, src, depth + 1)
        elif isinstance(x, dict) and depth < 2:
            for v in x.values():
                self.enter(v, src, depth + 1)

    def others(self, log, target, step):
        for p in list(self.pool):
            if p is target:
                continue
            now = obs(p[0])
            log.expect(now == p[2], "shared:%s|%s" % (
                target[1] if target else "-", step),
                lambda: "%s (from %s) altered by %s on another object (from "
                "%s): %s" % (p[3], p[1], step, target and target[1],
                             diff(p[2], now)))
            if now != p[2]:
                return

    def _run(self, plan, log):
        self.pool = []
        self.enter(objs.build(plan["spec"]), "new")
        for k, d in enumerate(plan["steps"]):
            getattr(self, "do_" + d["do"])(k, d, log)
            if log.violations:
                return

    def pick(self, d, kinds=None):
        c = [p for p in self.pool if kinds is None or p[3] in kinds]
        return c[int(d["on"]*len(c))] if c else None

    def do_make(self, k, d, log):
        p = self.pick(d, self.make)
        if p is None:
            return
        o = p[0]
        names = self.make[p[3]]
        n = names[d["turn"] % len(names)] if "turn" in d else \
            names[int(d["which"]*len(names))]
        e = optable.Env(d["seed"])
        try:
            thunk = optable.OPS[n].prep(o, e)
        except Exception as ex:
            log.ev(k, n, "prep", type(ex).__name__)
            return
        try:
            r = thunk()
        except Exception as ex:
            log.ev(k, n, "raised", type(ex).__name__)
            log.probe("raised")
            return
        log.evals += 1
        log.probe("made")
        self.others(log, None, n)
        if log.violations:
            return
        if kind_of(r) is not None and any(r is q[0] for q in self.pool):
            log.expect(False, "same-object:" + n, "the result is an object "
                       "the caller already has")
            return
        self.enter(r, n)
        for a in e.owned:
            self.enter(a, n + "(arg)")
        log.ev(k, n, "made", len(self.pool))

    def do_alter(self, k, d, log):
        p = self.pick(d, [x for x in self.alter if self.alter[x]])
        if p is None:
            return
        names = self.alter[p[3]]
        n = names[d["turn2"] % len(names)] if "turn2" in d else \
            names[int(d["which"]*len(names))]
        op = optable.OPS[n]
        o = p[0]
        # what the returning version gives, on a copy of the object
        want = None
        if op.twin and op.twin in optable.OPS and tidy(o, p[3]):
            import copy
            c = copy.deepcopy(o)
            try:
                r = optable.OPS[op.twin].prep(c, optable.Env(d["seed"]))()
                want = ["ok", raw(r)]
            except Exception as ex:
                want = ["raised", type(ex).__name__]
        e = optable.Env(d["seed"])
        try:
            thunk = op.prep(o, e)
        except Exception as ex:
            log.ev(k, n, "prep", type(ex).__name__)
            return
        args = [(a, obs(a)) for a in e.owned]
        stop, fired = d.get("stop"), []
        steps = LineSteps(lambda i, f: None)
        if stop is not None:
            at = int(stop*60)

            def act(i, f):
                if i == at:
                    fired.append(i)
                    log.fault("KeyboardInterrupt")
                    raise KeyboardInterrupt("simulated")
            steps = LineSteps(act)
        try:
            with steps:
                thunk()
            how = "ok"
        except Exception:
            how = "stopped" if fired else "raised"
        except KeyboardInterrupt:
            how = "stopped"
        log.evals += 1
        log.probe("altered" if how == "ok" else how)
        log.ev(k, n, how, p[1])
        if len(self.pool) > 1:
            log.nontrivial = True
            log.sig(p[1], n)
        self.others(log, p, n)
        if log.violations:
            return
        if how == "ok" and want is not None:
            now = ["ok", raw(o)]
            log.expect(near(now, want), "versions-differ:" + n, lambda:
                       "%s -> %s" % (str(want)[:150], str(now)[:150]))
        elif how == "raised" and want is not None:
            log.expect(want[0] == "raised", "versions-differ:" + n,
                       "the altering version fails, the returning one not")
        if how != "ok":
            # left half altered: of no use any more
            self.pool = [q for q in self.pool if q is not p]
            return
        p[2] = obs(o)
        for a, b in args:
            self.enter(a, n + "(arg)")

    def do_poke(self, k, d, log):
        p = self.pick(d, POKES)
        if p is None:
            return
        names = POKES[p[3]]
        a = names[int(d["which"]*len(names))]
        x = p[0] if a == "self" else getattr(p[0], a)
        done = self.write(x, d["seed"])
        log.ev(k, "write", p[3], a, p[1], done)
        if not done:
            return
        log.evals += 1
        log.probe("written")
        if len(self.pool) > 1:
            log.nontrivial = True
            log.sig(p[1], "write", a)
        self.others(log, p, "write in ." + a)
        if p[3] in ("SF", "VF", "PTS", "OPTS", "PROF", "ARR"):
            p[2] = obs(p[0])
        else:
            # its parts may not fit together any more
            self.pool = [q for q in self.pool if q is not p]

    def write(self, x, seed, depth=0):
        if isinstance(x, np.ndarray) and x.size and x.dtype.kind == "f":
            x *= 1.5
            return True
        if isinstance(x, np.ndarray) and x.size and x.dtype.kind == "b":
            i = seed % x.size
            if x.flat[i]:
                return False        # would reveal what was masked
            x.flat[i] = True
            return True
        if isinstance(x, np.ndarray) and x.size and x.dtype.kind == "i":
            x += 1
            return True
        if isinstance(x, (list, np.ndarray)) and len(x) and depth < 3:
            return self.write(x[seed % len(x)], seed, depth + 1)
        k = kind_of(x)
        if k is not None and depth < 3:
            names = POKES[k]
            return self.write(getattr(x, names[seed % len(names)]), seed,
                              depth + 1)
        return False

    def simplify(self, plan):
        s = plan["spec"]
        for kw in ([{"mask": "none"}] if s.get("mask", "none") != "none"
                   else []) + [{a: s[a] - 1} for a in ("n", "nx", "ny")
                               if s.get(a, 0) > 3]:
            p = json.loads(json.dumps(plan))
            p["spec"].update(kw)
            yield p
        for i, d in enumerate(plan["steps"]):
            if "stop" in d:
                p = json.loads(json.dumps(plan))
                p["steps"][i].pop("stop")
                yield p


PROPERTY = C13()

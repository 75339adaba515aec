"""C12: asking something about an object, or making another one out of it,
alters neither the object nor the arguments - also when it fails or is
interrupted."""
import contextlib
import io
import json
import warnings

from sim.core import Property


class C12(Property):
    id = "C12"
    level = "exploration"
    runs = {"quick": 6000, "thorough": 60000}
    wall = {"quick": 240.0, "thorough": 2400.0}
    rule = ("A run builds one drawn object and applies 3-8 drawn operations "
            "to it: queries, returning versions of the treatments, and (on a "
            "copy) altering versions; some are stopped at a drawn line by an "
            "interrupt or a failing allocation. After each, the object and "
            "every argument of the caller have to be as before (public "
            "attributes, bit for bit); at the end the first queries are "
            "asked again. Non-trivial: at least one operation succeeded or "
            "was stopped midway.")
    sig_measure = "distinct (operation, outcome, line at which it stopped)"
    real = ["all of core, field_treatment, vortex_criterions, "
            "vortex_properties, vortex_detection, pod, boundary_layer"]
    stub = ["signal delivery (exception raised at a drawn line)"]
    assumptions = ["interrupts arrive between two Python lines of IMTreatment"
                   ", not inside numpy"]
    shrink_lists = ("ops",)

    def setup(self):
        global objs, optable, obs, dig, near, raw, diff, LineSteps, np
        import numpy as np
        import matplotlib
        matplotlib.use("Agg")
        from sim import objs, optable
        from sim.observe import obs, dig, diff, near, raw
        from sim.lines import LineSteps
        # lazily loaded data
        from IMTreatment.vortex_detection.levelset_data import get_sol
        get_sol()
        self.kinds = sorted({o.kinds for o in optable.OPS.values()})
        self.by = {k: optable.names(k, "qni") for k in self.kinds}

    def gen(self, rng, i, tier):
        kind, j = optable.turn(i)
        spec = objs.gen_spec(rng, kind)
        names = self.by[kind]
        w = [optable.OPS[n].weight*(.4 if n.endswith("!") else 1.)
             for n in names]
        ops = []
        # every operation is the first one in turn
        first = names[j % len(names)]
        for k in range(rng.randint(3, 8)):
            n = first if k == 0 else rng.choices(names, w)[0]
            d = {"op": n, "seed": rng.randrange(1 << 30)}
            r = rng.random()
            if r < .35 and not n.endswith("!"):
                d["stop"] = rng.random()
                d["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
            ops.append(d)
        return {"spec": spec, "ops": ops}

    def execute(self, plan, log):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()), \
                    np.errstate(all="ignore"):
                self._run(plan, log)

    def _run(self, plan, log):
        o = objs.build(plan["spec"])
        o0 = obs(o)
        answers = []
        for k, d in enumerate(plan["ops"]):
            op = optable.OPS[d["op"]]
            target = o if op.effect != "i" else o.copy()
            e = optable.Env(d["seed"])
            try:
                thunk = op.prep(target, e)
            except Exception as ex:
                log.probe("not_applicable")
                log.ev(k, d["op"], "prep", type(ex).__name__)
                continue
            if op.effect != "i":
                now = obs(o)
                if now != o0:
                    raise RuntimeError("the harness altered the object in %s"
                                       % d["op"])
            own = [obs(a) for a in e.owned]
            steps = LineSteps(lambda k, f: None)
            res = self.call(thunk, steps)
            log.evals += 1
            log.ev(k, d["op"], res[0], steps.k)
            log.probe("ok" if res[0] == "ok" else "raised")
            log.sig(d["op"], res[0])
            if res[0] == "ok":
                log.nontrivial = True
            self.check(log, d["op"], "succeeded" if res[0] == "ok" else
                       "failed", o, o0, e, own)
            if log.violations:
                return
            if op.effect != "i" and len(answers) < 3:
                answers.append((d, res))
            if d.get("stop") is None or op.effect == "i" or steps.k == 0:
                continue
            # once more, stopped at a line
            at = min(int(d["stop"]*steps.k), steps.k - 1)
            exc = {"KeyboardInterrupt": KeyboardInterrupt,
                   "MemoryError": MemoryError}[d["exc"]]

            def act(n, f, at=at, exc=exc):
                if n == at:
                    log.fault(d["exc"])
                    raise exc("simulated")
            e = optable.Env(d["seed"])
            thunk = op.prep(o, e)
            own = [obs(a) for a in e.owned]
            res = self.call(thunk, LineSteps(act))
            log.ev(k, d["op"], "stopped at", at, res[0])
            log.sig(d["op"], "stop", at)
            log.nontrivial = True
            self.check(log, d["op"], "stopped", o, o0, e, own)
            if log.violations:
                return
        for d, res in answers:
            op = optable.OPS[d["op"]]
            thunk = op.prep(o, optable.Env(d["seed"]))
            again = self.call(thunk, LineSteps(lambda k, f: None))
            log.expect(near(again, res), "answer-changed:" + d["op"],
                       lambda: "%s, then %s" % (str(res)[:150],
                                                str(again)[:150]))

    @staticmethod
    def call(thunk, steps):
        try:
            with steps:
                r = thunk()
            return ["ok", raw(r)]
        except (Exception, KeyboardInterrupt) as ex:
            return ["raised", type(ex).__name__]

    @staticmethod
    def check(log, name, how, o, o0, e, own):
        now = obs(o)
        log.expect(now == o0, "object-altered:%s:%s" % (name, how),
                   lambda: diff(o0, now))
        for a, before in zip(e.owned, own):
            after = obs(a)
            log.expect(after == before, "argument-altered:%s:%s"
                       % (name, how), lambda: diff(before, after))

    def simplify(self, plan):
        def var(**kw):
            p = json.loads(json.dumps(plan))
            p["spec"].update(kw)
            return p
        s = plan["spec"]
        if s.get("mask", "none") != "none":
            yield var(mask="none")
        for a in ("n", "nx", "ny"):
            if s.get(a, 0) > 3:
                yield var(**{a: s[a] - 1})
        for i, d in enumerate(plan["ops"]):
            if d.get("stop") is not None:
                p = json.loads(json.dumps(plan))
                p["ops"][i].pop("stop")
                yield p


PROPERTY = C12()

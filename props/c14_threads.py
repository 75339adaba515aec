"""C14: several threads may ask about the same objects at once."""
import contextlib
import io
import json
import warnings

from sim.core import Property

# draw on the one current figure of pyplot
NOT = ("display",)
# use scipy's vode, which refuses to run twice at once
VODE = ("streamline",)


class C14(Property):
    id = "C14"
    level = "exploration"
    runs = {"quick": 8000, "thorough": 60000}
    wall = {"quick": 240.0, "thorough": 2400.0}
    rule = ("A run builds one drawn object; 2-3 threads ask 1-3 drawn "
            "questions each about it (or make other objects out of it), "
            "handing over at drawn lines of IMTreatment. Each has to get "
            "what it gets alone, and the object has to be as before. "
            "Non-trivial: at least one handing over with two threads alive.")
    sig_measure = "distinct sequences of (thread, function) at the switches"
    real = ["all of core, field_treatment, vortex_criterions, "
            "vortex_properties, vortex_detection, pod"]
    stub = ["thread scheduling (one baton, handed over at drawn lines)"]
    assumptions = ["threads switch between two Python lines of IMTreatment, "
                   "not inside numpy and scipy"]
    shrink_lists = ("gaps", "threads")

    def setup(self):
        global objs, optable, obs, dig, near, raw, diff, np, Baton
        import numpy as np
        import matplotlib
        matplotlib.use("Agg")
        from sim import objs, optable
        from sim.baton import Baton
        from sim.observe import obs, dig, diff, near, raw
        from IMTreatment.vortex_detection.levelset_data import get_sol
        get_sol()
        self.kinds = sorted({o.kinds for o in optable.OPS.values()})
        self.by = {k: [n for n in optable.names(k, "qn")
                       if not n.split(".", 1)[1].startswith(NOT)
                       and not any(v in n for v in VODE)]
                   for k in self.kinds}

    def gen(self, rng, i, tier):
        kind, j = optable.turn(i)
        spec = objs.gen_spec(rng, kind)
        if rng.random() < .5 and "mask" in spec and kind != "MF":
            spec["mask"] = "some"
        names = self.by[kind]
        w = [optable.OPS[n].weight for n in names]
        threads = []
        for t in range(rng.choice([2, 2, 3])):
            ops = []
            for k in range(rng.randint(1, 3)):
                n = names[j % len(names)] if (t, k) == (0, 0) else \
                    rng.choices(names, w)[0]
                ops.append({"op": n, "seed": rng.randrange(1 << 30)})
            threads.append(ops)
        # the same question twice at once, now and then
        if rng.random() < .3:
            threads[1][0] = dict(threads[0][0])
        scale = rng.choice([2, 5, 15, 60])
        gaps = [1 + int(rng.expovariate(1./scale))
                for _ in range(rng.randint(1, 40))]
        return {"spec": spec, "threads": threads, "gaps": gaps,
                "picks": [rng.random() for _ in gaps]}

    def execute(self, plan, log):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()), \
                    np.errstate(all="ignore"):
                self._run(plan, log)

    @staticmethod
    def ask(thunk):
        try:
            return ["ok", raw(thunk())]
        except Exception as ex:
            return ["raised", type(ex).__name__]

    def _run(self, plan, log):
        # alone, each on its own fresh object
        alone = []
        for ops in plan["threads"]:
            alone.append([])
            for d in ops:
                o = objs.build(plan["spec"])
                try:
                    thunk = optable.OPS[d["op"]].prep(
                        o, optable.Env(d["seed"]))
                except Exception:
                    alone[-1].append(None)
                    continue
                alone[-1].append(self.ask(thunk))
        o = objs.build(plan["spec"])
        o0 = obs(o)
        todo = []
        for ops, al in zip(plan["threads"], alone):
            todo.append([optable.OPS[d["op"]].prep(o, optable.Env(d["seed"]))
                         if a is not None else None
                         for d, a in zip(ops, al)])
        got = [[] for _ in todo]

        def body(i):
            with np.errstate(all="ignore"):
                for thunk in todo[i]:
                    got[i].append(None if thunk is None else
                                  self.ask(thunk))
        b = Baton(plan["gaps"], plan["picks"])
        b.run([lambda i=i: body(i) for i in range(len(todo))])
        log.fault("thread_switch", len(b.switches))
        log.ev("lines", b.lines, "switches", len(b.switches))
        log.nontrivial = bool(b.switches)
        if b.switches:
            log.sig(b.switches)
        for ops, al, gt in zip(plan["threads"], alone, got):
            for d, a, g in zip(ops, al, gt):
                if a is None:
                    continue
                log.evals += 1
                log.probe(g[0])
                log.ev(d["op"], a[0], g[0])
                log.expect(near(a, g), "answer-differs:" + d["op"],
                           lambda: "alone %s, with other threads %s "
                           "(switches %s)" % (str(a)[:150], str(g)[:150],
                                              b.switches[:6]))
                if log.violations:
                    return
        now = obs(o)
        log.expect(now == o0, "object-altered", lambda: diff(o0, now))

    def simplify(self, plan):
        for t, ops in enumerate(plan["threads"]):
            for k in range(len(ops)):
                if len(ops) > 1:
                    p = json.loads(json.dumps(plan))
                    p["threads"][t].pop(k)
                    yield p
        s = plan["spec"]
        for kw in ([{"mask": "none"}] if s.get("mask", "none") != "none"
                   else []) + [{a: s[a] - 1} for a in ("n", "nx", "ny")
                               if s.get(a, 0) > 3]:
            p = json.loads(json.dumps(plan))
            p["spec"].update(kw)
            yield p


PROPERTY = C14()

"""C18: an answer depends on the object alone, not on what was asked or done
before."""
import contextlib
import io
import json
import warnings

from sim.core import Property


# arrays a caller may write into
OWN = {"SF": ["values", "mask"], "VF": ["comp_x", "comp_y", "mask"],
       "PROF": ["y", "mask"], "PTS": ["xy", "v"], "OPTS": ["xy", "v"],
       "TSF": ["fields"], "TVF": ["fields"], "TPTS": ["point_sets"],
       "SSF": ["fields"], "SVF": ["fields"]}


@contextlib.contextmanager
def memory(seed):
    """np.empty and np.empty_like called by IMTreatment find this in the
    memory they get."""
    import sys
    from sim.lines import ROOT
    empty, like = np.empty, np.empty_like
    fills = {"f": [7.5, -3.25], "c": [2.5, -1.5], "i": [5, 2], "u": [5, 2],
             "b": [True, False]}

    def fill(a):
        if sys._getframe(2).f_code.co_filename.startswith(ROOT) and \
                a.dtype.kind in fills:
            a.fill(fills[a.dtype.kind][seed % 2])
        return a

    def empty2(*args, **kw):
        return fill(empty(*args, **kw))

    def like2(*args, **kw):
        return fill(like(*args, **kw))
    np.empty, np.empty_like = empty2, like2
    try:
        yield
    finally:
        np.empty, np.empty_like = empty, like


class C18(Property):
    id = "C18"
    level = "exploration"
    runs = {"quick": 9000, "thorough": 60000}
    wall = {"quick": 240.0, "thorough": 2400.0}
    rule = ("A run builds one drawn object and puts it through drawn "
            "steps: questions (some stopped at a drawn line), alterations, "
            "writes of the caller into the answers it got, questions to "
            "another object, another state of the random generator, a copy, "
            "a restart from a file. Then up to 6 drawn questions (most of them "
            "asked before the last step), with another random state and other "
            "leftovers in uninitialised memory, get the answers that a new object with the same public attributes "
            "gives. Non-trivial: one question answered after two steps.")
    sig_measure = "distinct (earlier step, question) pairs"
    real = ["all of core, field_treatment, vortex_criterions, "
            "vortex_properties, vortex_detection, pod"]
    stub = ["signal delivery (exception raised at a drawn line)",
            "seeding of the random generators",
            "content of uninitialised arrays (np.empty of IMTreatment)"]
    assumptions = ["two objects with the same public attributes are the same "
                   "for a user"]
    shrink_lists = ("steps", "asks")

    def setup(self):
        global objs, optable, obs, dig, near, raw, diff, np, LineSteps, rebuild, simfs
        global imtio
        import numpy as np
        import matplotlib
        matplotlib.use("Agg")
        from sim import objs, optable, simfs
        from sim.lines import LineSteps
        from sim.observe import obs, dig, diff, near, raw
        from sim.rebuild import rebuild
        from IMTreatment import file_operation as imtio
        from IMTreatment.vortex_detection.levelset_data import get_sol
        get_sol()
        self.kinds = sorted({o.kinds for o in optable.OPS.values()})
        self.q = {k: [n for n in optable.names(k, "qn") if
                      "display" not in n] for k in self.kinds}
        self.i = {k: optable.names(k, "i") for k in self.kinds}

    def gen(self, rng, i, tier):
        kind, j = optable.turn(i)
        spec = objs.gen_spec(rng, kind)
        if kind == "CP":
            spec.pop("traj", None)
        names = self.q[kind]
        w = [optable.OPS[n].weight for n in names]
        steps = []
        for k in range(rng.randint(1, 6)):
            r = rng.random()
            do = "ask" if r < .45 else "alter" if r < .6 else "write" \
                if r < .7 else "poke" if r < .75 else rng.choice(["other", "seed", "copy",
                                            "restart"])
            d = {"do": do, "seed": rng.randrange(1 << 30)}
            if do in ("ask", "other"):
                d["op"] = rng.choices(names, w)[0]
                if rng.random() < .25:
                    d["stop"] = rng.random()
            if do == "alter":
                if not self.i[kind]:
                    continue
                d["op"] = rng.choice(self.i[kind])
            steps.append(d)
        asks = [{"op": names[j % len(names)] if k == 0 else
                 rng.choices(names, w)[0], "seed": rng.randrange(1 << 30)}
                for k in range(rng.randint(1, 6))]
        # what is asked in the end was asked before, then something happened
        before = [a for a in asks if rng.random() < .7]
        rng.shuffle(before)
        for a in before:
            steps.append({"do": "ask", "op": a["op"],
                          "seed": a["seed"] if rng.random() < .7 else
                          rng.randrange(1 << 30)})
        if before:
            r = rng.random()
            ops = self.i[kind]
            if r < .7 and ops:
                # (each alteration in turn)
                steps.append({"do": "alter", "seed": rng.randrange(1 << 30),
                              "op": ops[(j//len(names) + j) % len(ops)]})
            elif r < .83:
                steps.append({"do": "poke", "seed": rng.randrange(1 << 30)})
            elif r < .92:
                steps.append({"do": "write", "seed": rng.randrange(1 << 30)})
            else:
                steps.append({"do": "seed", "seed": rng.randrange(1 << 30)})
        return {"spec": spec, "steps": steps, "asks": asks}

    def execute(self, plan, log):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()), \
                    np.errstate(all="ignore"):
                self._run(plan, log)

    @staticmethod
    def ask(o, d, seed):
        import random
        try:
            thunk = optable.OPS[d["op"]].prep(o, optable.Env(d["seed"]))
        except Exception:
            return None
        np.random.seed(seed)
        random.seed(seed)
        try:
            with memory(seed):
                return ["ok", raw(thunk())]
        except Exception as ex:
            return ["raised", type(ex).__name__]

    def _run(self, plan, log):
        o = objs.build(plan["spec"])
        other = objs.build(dict(plan["spec"], seed=plan["spec"]["seed"] + 3))
        answers = []
        past = []
        for k, d in enumerate(plan["steps"]):
            o = self.step(o, other, d, answers, log, k)
            if o is None:
                return
            past.append(d.get("op") or d["do"])
        public = obs(o)
        try:
            new = rebuild(o)
            same = obs(new) == public
        except Exception as ex:
            log.ev("not rebuilt", type(ex).__name__)
            log.probe("not_rebuilt")
            return
        if not same:
            log.ev("rebuilt differently")
            log.probe("rebuilt_differently")
            return
        for n, d in enumerate(plan["asks"]):
            a = self.ask(o, d, 1)
            # a new object for each question: nothing was asked before
            b = self.ask(rebuild(new), d, 2)
            if a is None or b is None:
                continue
            log.evals += 1
            log.probe(a[0])
            log.ev(d["op"], a[0], b[0])
            for p in past:
                log.sig(p, d["op"])
            log.nontrivial = log.nontrivial or len(past) >= 2
            log.expect(near(a, b), "depends-on-history:" + d["op"],
                       lambda: "after %s: %s, a new object: %s"
                       % (past, str(a)[:150], str(b)[:150]))
            if log.violations:
                return

    def step(self, o, other, d, answers, log, k):
        do = d["do"]
        if do in ("ask", "other"):
            x = o if do == "ask" else other
            fired = []
            steps = LineSteps(lambda i, f: None)
            if "stop" in d:
                at = int(d["stop"]*80)

                def act(i, f):
                    if i == at:
                        fired.append(i)
                        log.fault("KeyboardInterrupt")
                        raise KeyboardInterrupt("simulated")
                steps = LineSteps(act)
            try:
                thunk = optable.OPS[d["op"]].prep(x, optable.Env(d["seed"]))
                with steps:
                    r = thunk()
                answers.append(r)
                log.ev(k, do, d["op"], "ok")
            except Exception as ex:
                log.ev(k, do, d["op"], type(ex).__name__)
            except KeyboardInterrupt:
                log.ev(k, do, d["op"], "stopped")
        elif do == "alter" and d["op"]:
            c = o.copy() if hasattr(o, "copy") else o
            try:
                optable.OPS[d["op"]].prep(o, optable.Env(d["seed"]))()
                log.ev(k, d["op"], "ok")
                log.probe("altered")
            except Exception as ex:
                log.ev(k, d["op"], type(ex).__name__)
                return c        # half altered
        elif do == "write" and answers:
            self.write(answers[d["seed"] % len(answers)], d["seed"])
            log.fault("answer_written")
            log.ev(k, "write")
        elif do == "poke":
            if self.poke(o, objs.kind_of(o), np.random.RandomState(
                    d["seed"] % (1 << 31))):
                log.probe("poked")
                log.ev(k, "poke")
        elif do == "seed":
            import random
            np.random.seed(d["seed"])
            random.seed(d["seed"])
            log.fault("reseeded")
        elif do == "copy":
            o = o.copy() if hasattr(o, "copy") else o
        elif do == "restart":
            import shutil
            root = simfs.scratch()
            try:
                imtio.export_to_file(o, root + "/o.cimt")
                o = imtio.import_from_file(root + "/o.cimt")
            finally:
                shutil.rmtree(root, ignore_errors=True)
            log.fault("restart")
        return o

    def poke(self, o, kind, rs):
        """The caller writes into an array of the object itself."""
        if kind not in OWN:
            return False
        n = OWN[kind][rs.randint(len(OWN[kind]))]
        x = getattr(o, n)
        if n in ("fields", "point_sets"):
            return len(x) and self.poke(x[rs.randint(len(x))], kind[1:], rs)
        if not isinstance(x, np.ndarray) or not x.size or \
                x.dtype.kind not in "bf" or not x.flags.writeable:
            return False
        at = rs.randint(x.size)
        if x.dtype == bool:
            if not x.flat[at] and (~x).sum() > 2:
                x.flat[at] = True
        else:
            x.flat[at] += 2.5
        return True

    def write(self, x, seed, depth=0):
        """The caller writes into an answer (never into the object: answers
        that are its own parts are left alone by reading them only)."""
        if isinstance(x, np.ndarray) and x.size and x.dtype.kind == "f" \
                and x.flags.writeable:
            x *= 1.5
        elif isinstance(x, list) and x and depth < 2:
            self.write(x[seed % len(x)], seed, depth + 1)
        elif isinstance(x, dict) and x:
            x.clear()

    def simplify(self, plan):
        s = plan["spec"]
        for kw in ([{"mask": "none"}] if s.get("mask", "none") != "none"
                   else []) + [{a: s[a] - 1} for a in ("n", "nx", "ny")
                               if s.get(a, 0) > 3]:
            p = json.loads(json.dumps(plan))
            p["spec"].update(kw)
            yield p


PROPERTY = C18()

"""C19: a model flow (vortex system, potential flow) answers for what it holds
now."""
import contextlib
import copy
import io
import json
import math
import warnings

from sim.core import Property

VORT = {"SolidVortex": ("omega", -2., 2.), "FreeVortex": ("gamma", -2., 2.),
        "BurgerVortex": ("ksi", -2., 2.), "HillVortex": ("U", .2, 2.),
        "LambOseenVortex": ("ksi", -2., 2.), "RankineVortex": ("circ", -2, 2.),
        "LambChaplyginVortex": ("U", .2, 2.), "PersoVortex": ("circ", -2., 2.)}


def close(a, b):
    """Equal up to rounding."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(a) == sorted(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return type(a) is type(b) and a == b
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    fin = np.abs(b[np.isfinite(b)])
    tol = 1e-8*max(1., fin.max() if fin.size else 1.)
    return bool(np.allclose(a, b, rtol=1e-7, atol=tol, equal_nan=True))


class C19(Property):
    id = "C19"
    level = "exploration"
    runs = {"quick": 1300, "thorough": 20000}
    wall = {"quick": 150.0, "thorough": 1800.0}
    rule = ("A run puts a vortex system or a potential flow through drawn "
            "steps: components added, removed, moved, turned, refined, "
            "another free stream, a step in time, a copy that goes its own "
            "way, questions (some stopped at a drawn line), questions of "
            "several threads handing over at drawn lines. After each step "
            "drawn questions get the answers of a new system made of the "
            "same components and asked once, and those of an independent "
            "superposition (method of images, closed-form panels). "
            "Non-trivial: a question answered after two steps.")
    sig_measure = "distinct (earlier step, question) pairs"
    real = ["vortex_creation (Vortex*, CustomField, Wall, VortexSystem, "
            "HsvSystem)", "potential_flow (System, objects, panels)"]
    stub = ["signal delivery (exception raised at a drawn line)",
            "thread scheduling (one baton, handed over at drawn lines)"]
    assumptions = ["a vortex moved by hand is followed by "
                   "refresh_imaginary_vortex()"]
    shrink_lists = ("steps",)

    def setup(self):
        global np, vc, pf, LineSteps, Baton, plt
        import numpy as np
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        from IMTreatment import vortex_creation as vc
        from IMTreatment import potential_flow as pf
        from sim.lines import LineSteps
        from sim.baton import Baton

    # -- plans ---------------------------------------------------------------
    def gen(self, rng, i, tier):
        kind = "VS" if i % 3 else "PF"
        comp = self.comp_vs if kind == "VS" else self.comp_pf
        steps = [{"do": "add", "c": comp(rng, k), "on": 0}
                 for k in range(rng.randint(2, 5) if kind == "VS" else
                                rng.randint(1, 3))]
        for k in range(rng.randint(2, 7)):
            r = rng.random()
            if r < .35:
                d = {"do": "ask", "q": self.question(rng, kind)}
                if rng.random() < .5:
                    d["stop"] = rng.randrange(rng.choice([12, 60, 300]))
            elif r < .5:
                d = {"do": "threads",
                     "qs": [self.question(rng, kind)
                            for _ in range(rng.choice([2, 2, 3]))]}
                if rng.random() < .4:
                    d["qs"][1] = d["qs"][0]
                sc = rng.choice([2, 6, 30])
                d["gaps"] = [1 + int(rng.expovariate(1./sc))
                             for _ in range(rng.randint(1, 25))]
                d["picks"] = [rng.random() for _ in d["gaps"]]
            elif r < .62:
                d = {"do": "add", "c": comp(rng, k + 5)}
            elif r < .68:
                d = {"do": "copy"}
            else:
                d = self.alter(rng, kind)
            d["on"] = rng.randrange(3)
            d["then"] = [self.question(rng, kind)
                         for _ in range(rng.choice([0, 1, 1, 2] if d["do"] in
                                                   ("ask", "threads", "add")
                                                   else [1, 2, 3]))]
            steps.append(d)
        return {"kind": kind, "u": [round(rng.uniform(.2, 2.), 3),
                                    round(rng.uniform(-1., 1.), 3)],
                "hsv": kind == "VS" and rng.random() < .04, "steps": steps}

    @staticmethod
    def comp_vs(rng, k):
        r = rng.random()
        if r < .5 or k == 0:
            n = rng.choice(sorted(VORT))
            return {"w": "vortex", "cls": n,
                    "p": round(rng.uniform(*VORT[n][1:]), 3),
                    "at": [round(rng.uniform(-3, 3), 3),
                           round(rng.uniform(-3, 3), 3)],
                    "movable": rng.random() < .8}
        if r < .85:
            return {"w": "wall", "d": rng.choice("xy"),
                    "p": rng.choice([0., -1.3, 2.1, .7])}
        return {"w": "field", "a": round(rng.uniform(-1, 1), 3),
                "b": round(rng.uniform(-1, 1), 3),
                "again": rng.random() < .4}

    @staticmethod
    def comp_pf(rng, k):
        return {"w": "object", "n": rng.randint(3, 5), "k": k,
                "r": round(rng.uniform(.5, 1.2), 3),
                "phi": round(rng.uniform(0, 6), 3),
                "cw": rng.random() < .25, "dim": rng.choice([2, 2, 2, 1]),
                "kind": "wall" if rng.random() < .85 else "other",
                "res": rng.choice([1, 1, 2]), "arr": rng.random() < .5}

    @staticmethod
    def alter(rng, kind):
        if kind == "VS":
            r = rng.random()
            if r < .4:
                return {"do": "remove", "i": rng.randint(-3, 3)}
            if r < .7:
                return {"do": "evolve", "dt": rng.choice([.05, .3, 1.]),
                        "stop": rng.randrange(300) if rng.random() < .3
                        else None}
            return {"do": "move", "i": rng.randrange(4),
                    "to": [round(rng.uniform(-3, 3), 3),
                           round(rng.uniform(-3, 3), 3)]}
        r = rng.random()
        if r < .25:
            return {"do": "u_inf", "v": round(rng.uniform(.2, 2.), 3)}
        if r < .45:
            return {"do": "alpha", "v": round(rng.uniform(-1., 1.), 3)}
        return {"do": "inverse" if r < .65 else "refine" if r < .8 else
                "drop", "i": rng.randrange(4)}

    @staticmethod
    def question(rng, kind):
        x, y = round(rng.uniform(-4, 4), 3), round(rng.uniform(-4, 4), 3)
        if kind == "VS":
            q = rng.choice(["vector", "vector", "only", "compounded",
                            "detailed", "field", "evolution", "tvf", "paths",
                            "map", "display", "displayc"])
        else:
            q = rng.choice(["velocity", "velocity", "panel", "grid", "line",
                            "pressure"])
        return {"q": q, "x": x, "y": y, "i": rng.randrange(4),
                "solid": rng.random() < .5, "raw": rng.random() < .5}

    # -- making systems ------------------------------------------------------
    @staticmethod
    def vortex(c):
        kw = {VORT[c["cls"]][0]: c["p"]}
        v = getattr(vc, c["cls"])(x0=c["at"][0], y0=c["at"][1],
                                  movable=c["movable"], **kw)
        return v

    @staticmethod
    def custom(c):
        def funct(x, y, a=c["a"], b=c["b"]):
            return a*y + .1, b*x - .2
        return vc.CustomField(funct, unit_values="m/s")

    @staticmethod
    def a_wall(c):
        return vc.Wall(**{c["d"]: c["p"]})

    @staticmethod
    def coords(c):
        cx, cy = 3.*(c["k"] % 3) - 3., 3.*(c["k"] // 3 % 3) - 3.
        ang = [c["phi"] + 2*math.pi*j/c["n"] for j in range(c["n"])]
        if c["cw"]:
            ang.reverse()
        pts = [[cx + c["r"]*math.cos(t), cy + c["r"]*math.sin(t)]
               for t in ang]
        return pts + [pts[0]] if c["dim"] == 1 else pts

    def new(self, m):
        """A new system made of the components of the model."""
        if m["kind"] == "VS":
            vs = vc.HsvSystem(.1, .5, 3., .4) if m["hsv"] else \
                vc.VortexSystem()
            for c in m["walls"][2 if m["hsv"] else 0:]:
                vs.add_wall(self.a_wall(c))
            for c in m["fields"][1 if m["hsv"] else 0:]:
                vs.add_custom_field(self.custom(c))
            for c in m["vortex"]:
                vs.add_vortex(self.vortex(c))
            return vs
        s = pf.System(u_inf=m["u_inf"], alpha=m["alpha"])
        for dim in (1, 2):
            for c, ops in m["objects"]:
                if c["dim"] == dim:
                    s.add_object(dim, self.coords(c), kind=c["kind"],
                                 res=c["res"])
                    o = self.objects(s)[-1] if dim == 2 else s.objects_1D[-1]
                    for op in ops:
                        o.inverse_normals() if op == "inverse" else \
                            o.refine(2)
        return s

    @staticmethod
    def objects(s):
        return list(s.objects_1D) + list(s.objects_2D)

    # -- the independent model -----------------------------------------------
    def parts(self, m):
        """(id, vortex) of all the vortices and their images."""
        out = [(i, c["at"], 1) for i, c in enumerate(m["vortex"])]
        ims = []
        for w in m["walls"]:
            a = 0 if w["d"] == "x" else 1

            def mirror(p):
                p = list(p)
                p[a] = 2*w["p"] - p[a]
                return p
            ims = ims + [(i, mirror(p), -s) for i, p, s in ims] + \
                [(i, mirror(p), -s) for i, p, s in out]
        return out, ims

    def velocity(self, m, x, y, ids=None, cfs=None):
        out, ims = self.parts(m)
        v = np.zeros(2)
        for i, p, s in out + ims:
            if ids is not None and i not in ids:
                continue
            c = m["vortex"][i]
            vort = self.vortex(dict(c, at=p))
            vort.rot_dir *= s
            v += vort.get_vector(x, y)
        for j, c in enumerate(m["fields"]):
            if cfs is None or j in cfs:
                v += (c["a"]*y + .1, c["b"]*x - .2)
        return v

    @staticmethod
    def panels(m, sysm):
        out = []
        for o in sysm.objects_1D + sysm.objects_2D:
            if o.kind == "wall":
                z = np.asarray(o.x) + 1j*np.asarray(o.y)
                out += list(zip(z[:-1], z[1:]))
        return out

    def panel_flow(self, m, sysm):
        """The sources of the panels, in closed form: functions giving the
        velocity away from the panels and on the middle of one."""
        pans = self.panels(m, sysm)
        uinf = m["u_inf"]*np.exp(1j*m["alpha"])
        n = len(pans)

        def one(z, p):
            a, b = p
            e = (b - a)/abs(b - a)
            return np.conj(np.log((z - a)/(z - b))/e/2/np.pi)
        A = np.zeros((n, n))
        mids = [(a + b)/2 for a, b in pans]
        # (the normal is on the right of the panel)
        nor = [-1j*(b - a)/abs(b - a) for a, b in pans]
        for i in range(n):
            for j in range(n):
                A[i, j] = .5 if i == j else \
                    (one(mids[i], pans[j])*np.conj(nor[i])).real
        rhs = np.array([-(uinf*np.conj(k)).real for k in nor])
        if n and np.linalg.cond(A) > 1e5:
            return None
        sig = np.linalg.solve(A, rhs) if n else []

        def away(z):
            return uinf + sum(s*one(z, p) for s, p in zip(sig, pans))

        def on(i):
            t = 1j*nor[i]
            v = uinf + sum(s*one(mids[i], p) for j, (s, p) in
                           enumerate(zip(sig, pans)) if j != i)
            return (v*np.conj(t)).real*t
        return away, on, pans, mids

    # -- questions -----------------------------------------------------------
    @staticmethod
    def vf(f):
        return {"x": np.array(f.axe_x), "y": np.array(f.axe_y),
                "vx": np.where(f.mask, 0., f.comp_x),
                "vy": np.where(f.mask, 0., f.comp_y),
                "m": np.array(f.mask, dtype=float),
                "u": str(f.unit_values)}

    def ask(self, s, q, m):
        """A function giving the answer as plain values."""
        x, y, n = q["x"], q["y"], q["q"]
        ax, ay = [x - .31, x + .4, x + 1.2], [y - .21, y + .5]
        if m["kind"] == "VS":
            nv, nf = len(m["vortex"]), len(m["fields"])
            if n == "vector":
                return lambda: list(s.get_vector(x, y))
            if n == "only":
                ids = [k for k in range(nv) if (q["i"] + 1) >> (k % 3) & 1]
                kw = {"vortex_ids": ids, "cf_ids": "none"} if q["raw"] else \
                    {"vortex_ids": "none", "cf_ids": list(range(nf))[:1]}
                return lambda: list(s.get_vector(x, y, **kw))
            if n in ("compounded", "detailed"):
                return lambda: [np.array(a, dtype=float).tolist() for a in
                                s.get_compounded_vector(
                                    x, y, detailed=n == "detailed")]
            if n == "field":
                return lambda: self.vf(s.get_vector_field(ax, ay))
            if n == "evolution":
                return lambda: [[v.x0, v.y0] for v in
                                s.get_evolution(.2).vortex]
            if n == "tvf":
                return lambda: [self.vf(f) for f in
                                s.get_temporal_vector_field(
                                    .1, ax[:2], ay, 1).fields]
            if n == "paths":
                return lambda: [[np.array(p.xy), np.array(p.v)] for p in
                                s.get_vortex_evolution(.1, 2)]
            if n == "map":
                v = vc.RankineVortex(circ=.7)
                return lambda: self.vf(s.get_velocity_map(ax[:2], ay, v))
            if n == "display":
                return lambda: self.drawn(s.display)
            return lambda: self.drawn(lambda: s.display_compounded_vector(
                x, y, detailed=q["raw"]))
        if n == "velocity":
            return lambda: list(s.compute_velocity(x, y))
        if n == "panel":
            def ask():
                pans = [p for o in self.objects(s) if o.kind == "wall"
                        for p in o.panels]
                if not pans:
                    return "no panel"
                p = pans[q["i"] % len(pans)]
                return list(s.compute_velocity(p.xc, p.yc))
            return ask
        if n == "grid":
            def ask():
                r = s.compute_velocity_on_grid(
                    np.array(ax), np.array(ay), raw=q["raw"],
                    remove_solid=q["solid"])
                return [np.array(a) for a in r] if q["raw"] else self.vf(r)
            return ask
        if n == "line":
            def ask():
                r = s.compute_velocity_on_line(
                    [x, y], [-x + .5, -y], res=5, raw=q["raw"],
                    remove_solid=q["solid"])
                if not q["raw"]:
                    r = [np.where(p.mask, np.nan, p.y) for p in r]
                return [np.array(a) for a in r]
            return ask

        def ask():
            vf = s.compute_velocity_on_grid(np.array(ax), np.array(ay))
            sf = s.compute_pressure_from_velocity(vf)
            return [np.where(sf.mask, 0., sf.values), np.array(sf.mask)]
        return ask

    @staticmethod
    def drawn(fn):
        fig = plt.figure()
        try:
            fn()
            ax = plt.gca()
            out = [[list(np.ravel(ln.get_xdata())),
                    list(np.ravel(ln.get_ydata()))] for ln in ax.lines]
            for c in ax.collections:
                if hasattr(c, "U"):
                    out.append([list(np.ravel(c.U)), list(np.ravel(c.V))])
            return out
        finally:
            plt.close(fig)

    def reference(self, q, m, s):
        """What the independent model says, None when it does not know."""
        x, y = q["x"], q["y"]
        if m["kind"] == "VS":
            if m["hsv"]:
                return None
            nv, nf = range(len(m["vortex"])), range(len(m["fields"]))
            if q["q"] == "vector":
                return list(self.velocity(m, x, y))
            if q["q"] == "compounded":
                return [[list(self.velocity(m, x, y, [i], [])) for i in nv],
                        list(nv), [list(self.velocity(m, x, y, [], [j]))
                                   for j in nf], list(nf)]
            if q["q"] == "detailed":
                ids = [i for i, _, _ in sum(self.parts(m), [])]
                return ("ids", ids)
            if q["q"] == "field":
                ax, ay = [x - .31, x + .4, x + 1.2], [y - .21, y + .5]
                v = np.array([[self.velocity(m, a, b) for b in ay]
                              for a in ax])
                return ("field", v[..., 0], v[..., 1])
            return None
        if q["q"] not in ("velocity", "panel"):
            return None
        flow = self.panel_flow(m, s)
        if flow is None:
            return None
        away, on, pans, mids = flow
        if q["q"] == "panel":
            if not pans:
                return None
            z = on(q["i"] % len(pans))
            return [z.real, z.imag]
        z = x + 1j*y
        for a, b in pans:
            t = ((z - a)*np.conj(b - a)).real/abs(b - a)**2
            d = abs(z - a - min(1, max(0, t))*(b - a))
            if d < .1:
                return None
        v = away(z)
        return [v.real, v.imag]

    # -- runs ----------------------------------------------------------------
    def execute(self, plan, log):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()), \
                    np.errstate(all="ignore"):
                self._run(plan, log)

    @staticmethod
    def answer(thunk):
        try:
            return ["ok", thunk()]
        except Exception as ex:
            return ["raised", type(ex).__name__]

    def check(self, s, m, q, past, log, got=None):
        a = self.answer(self.ask(s, q, m)) if got is None else got
        new = self.new(m)
        b = self.answer(self.ask(new, q, m))
        log.evals += 1
        log.ev("ask", q["q"], a[0], b[0])
        log.probe(a[0])
        if len(past) >= 2:
            log.nontrivial = True
        for p in past:
            log.sig(p, q["q"])
        log.expect(close(a, b), "not-for-present-components:" + q["q"],
                   lambda: "after %s: %s, a new system: %s"
                   % (past, str(a)[:200], str(b)[:200]))
        if log.violations or a[0] != "ok":
            return
        ref = self.reference(q, m, new)
        if ref is None:
            return
        r = a[1]
        if isinstance(ref, tuple) and ref[0] == "ids":
            log.probe("independent")
            log.expect(close(sorted(r[1]), sorted(ref[1])),
                       "wrong-contributions",
                       lambda: "%s instead of %s" % (r[1], ref[1]))
            return
        if isinstance(ref, tuple):
            r, ref = [r["vx"], r["vy"]], list(ref[1:])
        log.probe("independent")
        if m["kind"] == "PF":
            ok = bool(np.allclose(r, ref, rtol=1e-4, atol=1e-4*m["u_inf"]))
        else:
            ok = close(r, ref)
        log.expect(ok, "wrong-superposition:" + q["q"],
                   lambda: "%s instead of %s" % (str(r)[:200],
                                                 str(ref)[:200]))

    def state(self, s, m, log, past):
        """The components are those of the model."""
        if m["kind"] == "VS":
            got = [[type(v).__name__, v.id, v.movable] for v in s.vortex]
            want = [[c["cls"], i, c["movable"]]
                    for i, c in enumerate(m["vortex"])]
            pos = [[v.x0, v.y0] for v in s.vortex]
            ok = got == want and close(pos, [c["at"] for c in m["vortex"]]) \
                and s.nmb_vortex == len(want) \
                and [f.id for f in s.custfields] == \
                list(range(len(m["fields"]))) \
                and [[w.direction, w.position] for w in s.walls] == \
                [[w["d"], w["p"]] for w in m["walls"]]
            what = (got, pos, s.nmb_vortex, [f.id for f in s.custfields])
        else:
            n = self.new(m)
            what = [[s.u_inf, s.alpha]] + [
                [o.kind, list(o.x), list(o.y)] for o in self.objects(s)]
            ok = close(what, [[n.u_inf, n.alpha]] + [
                [o.kind, list(o.x), list(o.y)] for o in self.objects(n)])
        log.expect(ok, "components-differ", lambda: "after %s: %s"
                   % (past, str(what)[:300]))

    def _run(self, plan, log):
        if plan["kind"] == "VS":
            m = {"kind": "VS", "hsv": plan["hsv"], "vortex": [], "walls": [],
                 "fields": []}
            if plan["hsv"]:
                m["walls"] = [{"d": "x", "p": 0}, {"d": "y", "p": 0}]
                m["fields"] = [None]
        else:
            m = {"kind": "PF", "u_inf": plan["u"][0], "alpha": plan["u"][1],
                 "objects": []}
        live = [(self.new(m), m, [])]
        mine = []               # what the caller added, and as it was
        for k, d in enumerate(plan["steps"]):
            j = d["on"] % len(live)
            s, m, past = live[j]
            r = self.step(s, m, d, mine, live, log, past)
            if log.violations:
                return
            if r is False:
                log.ev(k, d["do"], "not possible")
                continue
            if r is not True:
                s = r
                live[j] = (s, m, past)
            past.append(d["do"])
            log.ev(k, d["do"])
            for s2, m2, past2 in live:
                self.state(s2, m2, log, past2)
            for x, before in mine:
                now = self.caller(x)
                log.expect(now == before, "caller-component-altered",
                           lambda: "after %s: %s -> %s"
                           % (d["do"], before, now))
            if log.violations:
                return
            for q in d.get("then", ()):
                for s2, m2, past2 in live:
                    self.check(s2, m2, q, past2, log)
                    if log.violations:
                        return

    @staticmethod
    def caller(x):
        if isinstance(x, (list, np.ndarray)):
            return repr(np.array(x).tolist())
        return repr(sorted((k, v) for k, v in vars(x).items()
                           if k != "funct"))

    def step(self, s, m, d, mine, live, log, past):
        do = d["do"]
        if do == "ask":
            thunk = self.ask(s, d["q"], m)
            if "stop" not in d:
                self.check(s, m, d["q"], past, log)
                return True
            self.stopped(thunk, d["stop"], log)
            return True
        if do == "threads":
            todo = [self.ask(s, q, m) for q in d["qs"]
                    if "display" not in q["q"]]
            qs = [q for q in d["qs"] if "display" not in q["q"]]
            got = [None]*len(todo)

            def body(i):
                with np.errstate(all="ignore"):
                    got[i] = self.answer(todo[i])
            if not todo:
                return False
            b = Baton(d["gaps"], d["picks"])
            b.run([lambda i=i: body(i) for i in range(len(todo))])
            log.fault("thread_switch", len(b.switches))
            for q, g in zip(qs, got):
                self.check(s, m, q, past + ["threads"], log, got=g)
                if log.violations:
                    break
            return True
        if do == "copy":
            if len(live) > 2:
                return False
            c = s.copy() if hasattr(s, "copy") else copy.deepcopy(s)
            live.append((c, json.loads(json.dumps(m)), past + ["copy"]))
            return True
        if do == "add":
            return self.add(s, m, d["c"], mine)
        if m["kind"] == "PF":
            if do in ("u_inf", "alpha"):
                setattr(s, do, d["v"])
                m[do] = d["v"]
                return True
            os_ = m["objects"]
            if not os_:
                return False
            # (objects of the system: the 1D first)
            order = [o for dim in (1, 2) for o in os_ if o[0]["dim"] == dim]
            i = d["i"] % len(order)
            o = self.objects(s)[i]
            if do == "inverse":
                o.inverse_normals()
                order[i][1].append("inverse")
            elif do == "refine":
                if len(o.panels) > 8:
                    return False
                o.refine(2)
                order[i][1].append("refine")
            else:
                for lst in (s.objects_1D, s.objects_2D):
                    for n, x in enumerate(lst):
                        if x is o:
                            del lst[n]
                            break
                os_[:] = [x for x in os_ if x is not order[i]]
            return True
        vs = m["vortex"]
        if not vs:
            return False
        if do == "remove":
            i = d["i"]
            if not -len(vs) <= i < len(vs):
                i = i % len(vs)
            s.remove_vortex(i)
            del vs[i]
            return True
        if do == "move":
            i = d["i"] % len(vs)
            if not vs[i]["movable"]:
                return False
            s.vortex[i].x0, s.vortex[i].y0 = d["to"]
            s.refresh_imaginary_vortex()
            vs[i]["at"] = list(d["to"])
            return True
        # (too close to an image, rounding decides)
        out, ims = self.parts(m)
        for n, (i, p, _) in enumerate(out + ims):
            for k, (j, q, _) in enumerate(out):
                if n != k and math.hypot(p[0] - q[0], p[1] - q[1]) < 1e-6:
                    return False
        # a step in time: another system
        if d.get("stop") is not None:
            n = self.stopped(lambda: s.get_evolution(d["dt"]), d["stop"], log)
            if n is None:
                return True
        else:
            n = s.get_evolution(d["dt"])
        if not m["hsv"]:
            want = [list(np.array(c["at"]) +
                         (d["dt"]*self.velocity(m, *c["at"])
                          if c["movable"] else 0.)) for c in vs]
        else:
            f = self.new(m)
            want = [list(np.array(c["at"]) + (
                d["dt"]*np.array(f.get_vector(*c["at"])) if c["movable"]
                else 0.)) for c in vs]
        got = [[v.x0, v.y0] for v in n.vortex]
        log.expect(close(got, want), "wrong-evolution",
                   lambda: "%s instead of %s" % (got, want))
        if not np.all(np.isfinite(got)) or np.max(np.abs(got)) > 1e3:
            return False
        for c, p in zip(vs, got):
            c["at"] = [float(p[0]), float(p[1])]
        return n

    def add(self, s, m, c, mine):
        if m["kind"] == "PF":
            if len(m["objects"]) > 3 or any(
                    c["k"] % 9 == o[0]["k"] % 9 for o in m["objects"]):
                return False
            pts = self.coords(c)
            if c["arr"]:
                pts = np.array(pts)
            mine.append((pts, self.caller(pts)))
            s.add_object(c["dim"], pts, kind=c["kind"], res=c["res"])
            m["objects"].append((c, []))
            return True
        if c["w"] == "vortex":
            if len(m["vortex"]) > 3:
                return False
            x, add = self.vortex(c), s.add_vortex
            m["vortex"].append(json.loads(json.dumps(c)))
        elif c["w"] == "wall":
            if len(m["walls"]) > 2:
                return False
            x, add = self.a_wall(c), s.add_wall
            m["walls"].append(c)
        else:
            x, add = self.custom(c), s.add_custom_field
            m["fields"].append(c)
        mine.append((x, self.caller(x)))
        add(x)
        if c.get("again"):
            # the same one twice
            add(x)
            m["fields"].append(c)
        return True

    @staticmethod
    def stopped(thunk, at, log):
        def act(i, f):
            if i == at:
                log.fault("KeyboardInterrupt")
                raise KeyboardInterrupt("simulated")
        try:
            with LineSteps(act):
                return thunk()
        except KeyboardInterrupt:
            return None
        except Exception:
            return None


PROPERTY = C19()

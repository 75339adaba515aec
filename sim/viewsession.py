"""One session of a user in front of one or two viewers, with a reference
model of the navigation.  Used by C08 (what is drawn) and C09 (navigation)."""
import contextlib
import io
import json
import warnings

NEXT = [" ", "right", "+", "l"]
PREV = ["left", "backspace", "-", "h"]
LAST = ["up", "k"]
FIRST = ["down", "j"]
GOTO = ["enter", "g"]
PLAY = ["p", "."]
INCR = ["i", "*"]
INTERV = ["t", "/"]
LIM = ["pagedown", "a"]
GOLIM = ["pageup", "b"]
OTHER = ["x", "q", "s", "f1", "ctrl+c", "escape"]
KEYS = [NEXT, PREV, LAST, FIRST, GOTO, PLAY, INCR, INTERV, LIM, GOLIM, OTHER]
W = [5, 5, 2, 2, 4, 4, 2, 1, 3, 3, 1]


def gen(rng, i, tier):
    whats = ["TSF", "TVF", "TPTS", "PROF"]
    viewers = []
    n = rng.choice([1, 2, 3, 5, 8])
    for v in range(1 if rng.random() < .6 else 2):
        w = whats[(i + v) % 4]
        d = {"what": w, "n": n if w != "TPTS" else max(n, 2),
             "seed": rng.randrange(1 << 30),
             "buffer": rng.choice([None, 1, 2, 3, 100, 100]),
             "share": rng.random() < .6, "kind": None, "compo": None,
             "overlay": rng.random() < .3 and w in ("TSF", "TVF")}
        if w == "TSF":
            d["kind"] = rng.choice([None, "matrix", "contour", "contourf"])
        elif w == "TVF":
            d["compo"] = rng.choice([None, None, "comp_x", "magnitude"])
            if d["compo"] is None:
                d["kind"] = rng.choice([None, "quiver", "stream"])
        elif w == "PROF":
            d["kind"] = rng.choice([None, "plot", "semilogx"])
        viewers.append(d)
    n = max(d["n"] for d in viewers)
    for d in viewers:
        d["n"] = n
        d["overlay"] = d["overlay"] and n > 1
    events = []
    for _ in range(rng.randint(8, 40)):
        v = rng.randrange(len(viewers))
        r = rng.random()
        if rng.random() < .06:      # limits set, moved, taken away, played
            pool = [rng.randint(1, n) for _ in range(rng.choice([1, 2, 3]))]
            for _ in range(rng.randint(2, 6)):
                for c in str(rng.choice(pool)):
                    events.append({"do": "key", "v": v, "k": c})
                events.append({"do": "key", "v": v, "k": rng.choice(LIM)})
                if rng.random() < .3:
                    events.append({"do": "key", "v": v, "k": rng.choice(
                        rng.choice([GOLIM, PLAY, NEXT]))})
                    events.append({"do": "wait", "ms": rng.choice([1, 5])})
        elif r < .5:
            if rng.random() < .35:
                for c in str(rng.choice([0, 1, 2, 3, n, n, n - 1, n + 1,
                                         rng.randint(0, 40)])):
                    events.append({"do": "key", "v": v, "k": c})
            events.append({"do": "key", "v": v,
                           "k": rng.choice(rng.choices(KEYS, W)[0])})
        elif r < .68:
            events.append({"do": "click", "v": v, "b": rng.choice(
                ["next", "next", "prev", "prev", "play"])})
        elif r < .75:
            events.append({"do": "slide", "v": v, "to": rng.randint(1, n),
                           "via": rng.choice([None, rng.randint(1, n)])})
        elif r < .92:
            events.append({"do": "wait",
                           "ms": rng.choice([1, 3, 5, 20, 40])})
        elif r < .96:
            events.append({"do": "fault", "after": rng.randint(0, 2)})
        else:
            a = rng.randrange(n)
            events.append({"do": "film", "v": v, "fields": rng.choice(
                ["all", [a, rng.randint(a, n - 1)]]),
                "fail": rng.choice([None, None, 0, 1])})
    return {"viewers": viewers, "link": len(viewers) == 2
            and rng.random() < .6, "events": events,
            "render": rng.random() < .04}


def simplify(plan):
    for k, d in enumerate(plan["viewers"]):
        for kw in ({"overlay": False}, {"buffer": 100}, {"share": True},
                   {"kind": None}):
            if any(d[a] != b for a, b in kw.items()):
                p = json.loads(json.dumps(plan))
                p["viewers"][k].update(kw)
                yield p
    if len(plan["viewers"]) == 2:
        p = json.loads(json.dumps(plan))
        p["viewers"].pop()
        p["link"] = False
        p["events"] = [e for e in p["events"] if e.get("v", 0) == 0]
        yield p


class Model(object):
    def __init__(self, n, interval):
        self.n, self.ind, self.incr, self.num = n, 0, 1, None
        self.lims, self.due, self.interval = [None, None], None, interval

    def take(self):
        k, self.num = self.num, None
        return k

    def key(self, k, now):
        if k in list("0123456789"):
            self.num = int(k) if self.num is None else self.num*10 + int(k)
            return
        num = self.take()
        if k in NEXT or k in PREV:
            self.move(num, 1 if k in NEXT else -1)
        elif k in LAST or k in FIRST or k in GOTO:
            if num is None and k not in GOTO:
                num = self.n if k in LAST else 1
            if num is not None and 1 <= num <= self.n:
                self.ind = num - 1
        elif k in PLAY:
            self.play(num, now)
        elif k in INCR:
            self.incr = self.incr if num is None else num
        elif k in INTERV:
            self.interval = self.interval if num is None else num
        elif k in LIM:
            self.lim(num)
        elif k in GOLIM:
            for x in self.lims:
                if x is not None and x != self.ind:
                    self.ind = x
                    break
        elif k == "q":
            self.due = None

    def move(self, num, sign):
        k = self.incr if num is None else num
        self.ind = min(max(self.ind + sign*k, 0), self.n - 1)

    def play(self, num, now):
        self.interval = self.interval if num is None else num
        self.due = now + max(1, self.interval) if self.due is None else None
        self.running = max(1, self.interval)

    def lim(self, num):
        k = self.ind if num is None else num - 1
        if not 0 <= k < self.n:
            return
        if k in self.lims:
            self.lims[self.lims.index(k)] = None
        elif None not in self.lims:
            self.lims = [None, None]
        else:
            self.lims[0 if self.lims[0] is None else 1] = k
            if None not in self.lims:
                self.lims.sort()

    def tick(self):
        """The frames the next one may be."""
        nxt = self.ind + self.incr
        if None in self.lims:
            return [nxt if nxt < self.n else 0]
        a, b = self.lims
        if nxt == b:
            return [a, b]       # (is the second limit played?)
        return [nxt if nxt < b else a]


class Session(object):
    def __init__(self, prop, plan, log):
        self.prop, self.plan, self.log = prop, plan, log

    def expect(self, prop, ok, cls, msg=""):
        if prop == self.prop:
            self.log.evals += 1
            self.log.expect(ok, cls, msg)
        return ok

    # -- building ----------------------------------------------------------
    def build(self, d):
        rs = np.random.RandomState(d["seed"] % (1 << 31))
        n, nx, ny = d["n"], 5, 4
        ax, ay = np.arange(nx)*1.5, np.arange(ny)*1. + 2
        plt.figure()
        kw = {"buffer_size": d["buffer"]}
        want = []
        self.narrows = []
        if d["what"] in ("TSF", "TVF"):
            t = (core.TemporalScalarFields if d["what"] == "TSF" else
                 core.TemporalVectorFields)()
            for k in range(n):
                if d["what"] == "TSF":
                    f = core.ScalarField()
                    f.import_from_arrays(ax, ay, rs.uniform(
                        -1, 1, (nx, ny)).round(3)*(k + 1))
                else:
                    f = core.VectorField()
                    f.import_from_arrays(ax, ay, rs.uniform(
                        -1, 1, (nx, ny)).round(3)*(k + 1), rs.uniform(
                        -1, 1, (nx, ny)).round(3)*(k + 1))
                t.add_field(f, float(k), "s")
            if d["compo"]:
                kw["compo"] = d["compo"]
            db = t.display(kind=d["kind"], sharecb=d["share"], **kw)
            for f in t.fields:
                want.append([self.want_field(d, f)])
            cols = [np.asarray(f.values if d["what"] == "TSF" else
                               getattr(f, d["compo"]) if d["compo"] else
                               f.magnitude) for f in t.fields]
        elif d["what"] == "TPTS":
            t = core.TemporalPoints()
            for k in range(n):
                m = int(rs.randint(0 if k else 1, 5))
                p = core.Points(rs.uniform(-5, 5, (m, 2)).round(3))
                t.add_pts(p, time=float(k), unit_times="s")
                want.append([("scatter", view.r(p.xy).ravel().tolist())]
                            if m else [])
            db = t.display(**kw)
            cols = None
        else:
            x = [np.sort(rs.uniform(1, 5, 6)).round(3) for _ in range(n)]
            y = [rs.uniform(1, 5, 6).round(3) for _ in range(n)]
            if d["kind"]:
                kw["kind"] = d["kind"]
            db = plotlib.Displayer(x, y, data_type="profile", **kw)
            plotlib.ButtonManager(db)
            want = [[("line", view.r(np.array([a, b]).T).ravel().tolist())]
                    for a, b in zip(x, y)]
            cols = None
        if d["overlay"]:
            t = core.TemporalPoints()
            for k in range(n):
                p = core.Points(rs.uniform(1, 5, (2, 2)).round(3))
                t.add_pts(p, time=float(k), unit_times="s")
                want[k].append(("scatter", view.r(p.xy).ravel().tolist()))
            t.display(**({} if d["buffer"] is None else
                         {"buffer_size": d["buffer"]}))
        bm = db.button_manager
        self.log.nontrivial = True
        return {"bm": bm, "db": db, "want": want, "cols": cols, "d": d,
                "dirty": False, "model": Model(n, 2),
                "arrows": self.narrows or [0]*n}

    def want_field(self, d, f):
        if d["what"] == "TVF" and not d["compo"]:
            if d["kind"] == "stream":
                fig = plt.figure()
                lw = .1 + .9*f.magnitude/np.max(f.magnitude)
                s = fig.gca().streamplot(f.axe_x, f.axe_y, f.comp_x.T,
                                         f.comp_y.T, color=f.magnitude.T,
                                         linewidth=lw.T)
                out = view.describe(s.lines)
                self.narrows.append(len(fig.gca().patches))
                plt.close(fig)
                return out
            return ("quiver", np.concatenate(
                [view.r(f.comp_x.T).ravel(), view.r(f.comp_y.T).ravel()]
                ).tolist())
        v = f.values if d["what"] == "TSF" else getattr(f, d["compo"])
        if d["kind"] in ("contour", "contourf"):
            return ("contour", [float(v.min()), float(v.max())])
        dx, dy = f.axe_x[1] - f.axe_x[0], f.axe_y[1] - f.axe_y[0]
        return ("image", view.r(v.T).ravel().tolist() + view.r(
            [f.axe_x[0] - dx/2, f.axe_x[-1] + dx/2, f.axe_y[0] - dy/2,
             f.axe_y[-1] + dy/2]).tolist())

    # -- running -----------------------------------------------------------
    def go(self):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()), \
                    view.Desktop(
                        self.plan.get("render")) as self.desk:
                self._go()

    def _go(self):
        try:
            self.vs = [self.build(d) for d in self.plan["viewers"]]
            if self.plan["link"]:
                self.vs[0]["bm"].link_to_other_graph(self.vs[1]["bm"].fig)
        except Exception as ex:
            for p in ("C08", "C09"):
                self.expect(p, False, "viewer-fails:%s" % (
                    "+".join("%s.%s" % (d["what"], d["kind"])
                             for d in self.plan["viewers"])),
                    "%s: %s" % (type(ex).__name__, ex))
            return
        self.shown("start")
        for k, e in enumerate(self.plan["events"]):
            if self.log.violations:
                return
            getattr(self, "do_" + e["do"])(k, e)
        self.log.simtime += self.desk.clock.now/1e3

    def name(self, e):
        return e["do"] + ":" + str(e.get("k", e.get("b", "")))

    def event(self, e, act, actor, model):
        """One event on `actor`; model() does it on the model."""
        before = self.desk.failed
        inds = [v["bm"].ind for v in self.vs]
        try:
            act()
            err = None
        except (view.DrawFault, OSError) as ex:
            err = ex
        except Exception as ex:
            self.expect("C09", False, "event-fails:" + self.name(e),
                        "%s: %s" % (type(ex).__name__, ex))
            self.expect("C08", False, "event-fails:" + self.name(e),
                        "%s: %s" % (type(ex).__name__, ex))
            return
        faulty = self.desk.failed > before
        if faulty:
            self.log.fault("drawing_fails", self.desk.failed - before)
        options = model()
        now = [v["bm"].ind for v in self.vs]
        self.log.ev(self.name(e), actor["d"]["what"], inds, now,
                    type(err).__name__ if err else "")
        self.log.sig(self.name(e), actor["d"]["what"], actor["d"]["buffer"],
                     bool(err), len(self.vs) + self.plan["link"])
        for v, i in zip(self.vs, now):
            if not self.expect("C09", isinstance(i, (int, np.integer)) and
                               0 <= i < v["model"].n, "no-such-frame:"
                               + self.name(e), "frame %s of %d"
                               % (i, v["model"].n)):
                return
        if faulty:
            for v in self.vs:
                v["dirty"] = True
                v["model"].ind = v["bm"].ind
                v["model"].incr = v["bm"].incr
            return
        for v, i, j in zip(self.vs, inds, now):
            if i != j:
                v["dirty"] = False
        dirty = any(v["dirty"] for v in self.vs)
        m = actor["model"]
        options = [m.ind] if options is None else options
        if not self.expect("C09", actor["bm"].ind in options,
                           "wrong-frame:" + self.name(e),
                           "from frame %s to %s instead of %s (limits %s, "
                           "increment %s, %d frames)" % (
                               inds, now, options, m.lims, m.incr, m.n)):
            pass
        m.ind = actor["bm"].ind
        for v in self.vs:
            if v is actor:
                continue
            o = v["model"]
            if dirty:
                o.ind = v["bm"].ind
            elif self.plan["link"]:
                o.ind = m.ind
                if v["bm"].incr == m.incr:      # (the increment may follow)
                    o.incr = m.incr
            self.expect("C09", v["bm"].ind == o.ind, "other-viewer:%s:%s" % (
                "linked" if self.plan["link"] else "not-linked",
                self.name(e)), "frame %s instead of %s" % (v["bm"].ind,
                                                           o.ind))
            o.ind = v["bm"].ind
        self.shown(self.name(e))

    def do_key(self, k, e):
        v = self.vs[e["v"]]
        if e["k"] == "q" and v["model"].num is not None:
            return              # (does it stop only, or set the pace too?)
        self.event(e, lambda: self.desk.key(v["bm"].fig, e["k"]), v,
                   lambda: v["model"].key(e["k"], self.desk.clock.now))

    def do_click(self, k, e):
        v = self.vs[e["v"]]
        bm, m = v["bm"], v["model"]
        ax = {"next": bm.axnext, "prev": bm.axprev, "play": bm.axplay}[e["b"]]

        def model():
            if e["b"] == "play":
                m.play(m.take(), self.desk.clock.now)
            else:
                m.move(m.take(), 1 if e["b"] == "next" else -1)
        self.event(e, lambda: self.desk.click(bm.fig, ax), v, model)

    def do_slide(self, k, e):
        v = self.vs[e["v"]]
        bm, m = v["bm"], v["model"]
        if m.n < 2:
            return
        to, via = [None if x is None else x + .5 if x < m.n else float(x)
                   for x in (e["to"], e["via"])]

        def model():
            m.ind = e["to"] - 1
        self.event(e, lambda: self.desk.slide(bm.fig, bm.axslid, bm.bslid,
                                              to, via), v, model)

    def do_wait(self, k, e):
        clock = self.desk.clock
        until = clock.now + e["ms"]
        for _ in range(200):
            t = clock.next(until)
            if t is None or self.log.violations:
                break
            v = [x for x in self.vs if x["bm"].fig.canvas is t.canvas][0]
            m = v["model"]
            if not self.expect("C09", m.due is not None,
                               "plays-though-stopped", ""):
                return
            self.expect("C09", m.due is None or abs(m.due - clock.now) < 1e-6,
                        "played-at-another-pace", "at %s instead of %s ms"
                        % (clock.now, m.due))
            if m.due is not None:
                m.due += m.running
            self.log.fault("timer_tick")
            self.event({"do": "tick"}, t.fire, v, m.tick)
        if not self.log.violations:
            for v in self.vs:
                m = v["model"]
                self.expect("C09", m.due is None or m.due > clock.now - 1e-6,
                            "does-not-play", "a frame was due at %s, now %s"
                            % (m.due, clock.now))

    def do_fault(self, k, e):
        self.desk.arm = e["after"]
        self.log.ev("arm", e["after"])

    def do_film(self, k, e):
        v = self.vs[e["v"]]
        bm, m = v["bm"], v["model"]
        if any(x["dirty"] for x in self.vs):
            return
        arm, self.desk.arm = self.desk.arm, None
        view.Film.fail_at = e["fail"]
        view.Film.frames = None
        view.Film.look = lambda: [view.describe(a) for a in
                                  view.arts(bm.ax)]
        a, b = [0, m.n - 1] if e["fields"] == "all" else e["fields"]
        failed = []

        def act():
            try:
                bm.save_animation("film.avi", fields=e["fields"],
                                  writer="sim")
            except OSError:
                failed.append(1)
                self.log.fault("film_storage_full")
        self.event(e, act, v, lambda: None)
        for x in self.vs:       # (a linked one took part in the film)
            x["model"].incr = x["bm"].incr
        self.desk.arm = arm
        if self.log.violations:
            return
        due = e["fail"] is not None and e["fail"] <= b - a
        if not self.expect("C08", bool(failed) == due, "film-error-lost",
                           "fails: %s" % due) or failed:
            return
        got = view.Film.frames
        want = [v["want"][i] for i in range(a, b + 1)]
        ok = len(got) == len(want) and all(
            self.match(g, w) for g, w in zip(got, want))
        self.expect("C08", ok, "film", lambda: "frames %s instead of %s" % (
            [next((i for i, w in enumerate(v["want"]) if self.match(g, w)),
                  "?") for g in got], list(range(a, b + 1))))

    @staticmethod
    def match(got, want):
        got = list(got)
        if len(got) != len(want):
            return False
        for w in want:
            for g in got:
                if view.same(g, w):
                    got.remove(g)
                    break
            else:
                return False
        return True

    def shown(self, name):
        """Each viewer shows its frame, and nothing but it."""
        for v in self.vs:
            if v["dirty"] or self.log.violations:
                continue
            bm, d = v["bm"], v["d"]
            i = bm.ind
            if not 0 <= i < len(v["want"]):
                return
            al = view.arts(bm.ax)
            got = [view.describe(a) for a in al]
            self.expect("C08", self.match(got, v["want"][i]),
                        "shows-another-frame:%s" % name, lambda:
                        "%s: frame %s of %d, on the axes: %s, expected: %s "
                        "(frames among them: %s)" % (
                            d["what"], i, len(v["want"]),
                            [g[0] for g in got],
                            [w[0] for w in v["want"][i]],
                            [k for k, w in enumerate(v["want"])
                             if any(view.same(g, w[0]) for g in got
                                    if w)]))
            self.expect("C08", abs(bm.bslid.val - (i + 1)) < 1e-9,
                        "slider:%s" % name, "frame %s, slider at %s"
                        % (i, bm.bslid.val))
            self.expect("C08", len(bm.ax.patches) == v["arrows"][i],
                        "arrows:%s" % name, "frame %s, %d arrows instead of "
                        "%d" % (i, len(bm.ax.patches), v["arrows"][i]))
            if v["cols"] is not None and d["kind"] in (None, "matrix",
                                                       "quiver"):
                c = v["cols"]
                lo, hi = (min(x.min() for x in c), max(x.max() for x in c)) \
                    if d["share"] else (c[i].min(), c[i].max())
                mapped = [a for a in al if a.get_array() is not None
                          and view.describe(a)[0] in ("image", "quiver")] \
                    if al else []
                for a in mapped:
                    a.autoscale_None()      # (as when it is rendered)
                    self.expect("C08", np.allclose(a.get_clim(), (lo, hi)),
                                "colours:%s" % name, "frame %s coloured over "
                                "%s instead of %s" % (i, a.get_clim(),
                                                      (lo, hi)))
                if bm.cbax is not None:
                    y = sorted(bm.cbax.get_ylim())
                    self.expect("C08", np.allclose(y, (lo, hi)),
                                "colour-bar:%s" % name, "frame %s: bar over "
                                "%s instead of %s" % (i, y, (lo, hi)))


def load():
    global np, plt, core, plotlib, view
    import numpy as np
    from sim import viewer as view
    import matplotlib.pyplot as plt
    from IMTreatment import core
    from IMTreatment.plotlib import plotlib

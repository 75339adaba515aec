"""C08: the viewer shows the frame it says it shows."""
from sim.core import Property
from sim import viewsession


class C08(Property):
    id = "C08"
    level = "exploration"
    runs = {"quick": 1000, "thorough": 25000}
    wall = {"quick": 240.0, "thorough": 2400.0}
    rule = ("A run opens one or two (linked or not) viewers on drawn fields, "
            "points or profiles, with a drawn size of the buffer, and sends "
            "8-40 events: keys, clicks, slider moves, time passing while a "
            "film plays, films written (some to a full disk), drawings that "
            "fail. After each event the artists on the axes are the ones of "
            "the current frame and no others, the slider and the colour bar "
            "belong to it, and written films hold each frame once. "
            "Non-trivial: every run whose viewers opened.")
    sig_measure = "distinct (event, kind of data, buffer, failure, viewers)"
    real = ["plotlib.ButtonManager, Displayer, save_animation; display "
            "methods of TemporalFields and TemporalPoints; matplotlib and "
            "its widgets (Agg)"]
    stub = ["keyboard and mouse (events delivered by the simulator)",
            "timers (virtual clock)", "film writer", "failing drawing"]
    shrink_lists = ("events",)

    def setup(self):
        viewsession.load()

    def gen(self, rng, i, tier):
        return viewsession.gen(rng, i, tier)

    def execute(self, plan, log):
        viewsession.Session(self.id, plan, log).go()

    def simplify(self, plan):
        return viewsession.simplify(plan)


PROPERTY = C08()

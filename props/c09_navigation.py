"""C09: the viewer goes where it is told, and plays at the given pace."""
from sim.core import Property
from sim import viewsession


class C09(Property):
    id = "C09"
    level = "exploration"
    runs = {"quick": 1000, "thorough": 25000}
    wall = {"quick": 240.0, "thorough": 2400.0}
    rule = ("A run opens one or two (linked or not) viewers and sends 8-40 "
            "events (keys with or without numbers, clicks, slider moves, "
            "time passing, films written, drawings that fail). After each "
            "one the current frame of every viewer is compared to a "
            "reference model of the navigation, its limits, increments, "
            "timers and links. Non-trivial: every run whose viewers opened.")
    sig_measure = "distinct (event, kind of data, buffer, failure, viewers)"
    real = ["plotlib.ButtonManager, Displayer; display methods of "
            "TemporalFields and TemporalPoints; matplotlib and its widgets "
            "(Agg)"]
    stub = ["keyboard and mouse (events delivered by the simulator)",
            "timers (virtual clock)", "film writer", "failing drawing"]
    shrink_lists = ("events",)

    def setup(self):
        viewsession.load()

    def gen(self, rng, i, tier):
        return viewsession.gen(rng, i, tier)

    def execute(self, plan, log):
        viewsession.Session(self.id, plan, log).go()

    def simplify(self, plan):
        return viewsession.simplify(plan)


PROPERTY = C09()

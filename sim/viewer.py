"""Simulated desktop for the viewer of plotlib: a virtual clock with its
timers, a keyboard, a mouse, a film writer, and drawing that can fail.  The
viewer, the widgets and matplotlib (Agg) are the real ones."""
import heapq

import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt                          # noqa: E402
import matplotlib.animation as mplani                    # noqa: E402
from matplotlib.axes import Axes                         # noqa: E402
from matplotlib.backend_bases import (                   # noqa: E402
    FigureCanvasBase, KeyEvent, MouseEvent, TimerBase)


class Clock(object):
    """Virtual time (ms) and the timers waiting for it."""

    def __init__(self):
        self.now, self.heap, self.n = 0., [], 0

    def add(self, due, timer, ticket):
        self.n += 1
        heapq.heappush(self.heap, (due, self.n, timer, ticket))

    def next(self, until):
        """The next timer that fires before `until`, or None."""
        while self.heap:
            due, n, timer, ticket = self.heap[0]
            if timer.ticket != ticket:
                heapq.heappop(self.heap)
                continue
            if due > until:
                break
            heapq.heappop(self.heap)
            self.now = max(self.now, due)
            timer.ticket = None
            return timer
        self.now = max(self.now, until)
        return None


def timer_class(clock):
    class SimTimer(TimerBase):
        ticket = None
        serial = 0

        def _timer_start(self):
            SimTimer.serial += 1
            self.ticket = SimTimer.serial
            clock.add(clock.now + max(1, self.interval), self, self.ticket)

        def _timer_stop(self):
            self.ticket = None

        def _timer_set_interval(self):
            if self.ticket is not None:
                self._timer_start()

        def fire(self):
            """The event loop calls back; a timer that was not stopped goes
            on."""
            self._timer_start()
            self._on_timer()
            if not self.callbacks:
                self.stop()
    return SimTimer


class Film(object):
    """What a film writer got, one entry per frame."""
    frames = None
    fail_at = None
    look = None


class SimWriter(object):
    def __init__(self, *args, **kw):
        pass

    @classmethod
    def isAvailable(cls):
        return True

    def saving(self, fig, outfile, dpi, *args, **kw):
        import contextlib

        @contextlib.contextmanager
        def cm():
            yield self
        Film.frames = []
        return cm()

    def grab_frame(self, **kw):
        if Film.fail_at is not None and len(Film.frames) == Film.fail_at:
            Film.fail_at = None
            raise OSError(28, "No space left on device (simulated)")
        Film.frames.append(Film.look())


class DrawFault(MemoryError):
    pass


class Desktop(object):
    """with Desktop() as d: ..."""
    PRIM = ("plot", "imshow", "scatter", "quiver", "contour", "contourf",
            "streamplot", "semilogx", "semilogy", "loglog")

    def __init__(self, render=False):
        self.render = render       # pixels too (slow)
        self.clock = Clock()
        self.arm = None            # drawings until one fails
        self.failed = 0

    def __enter__(self):
        plt.close("all")
        cls = timer_class(self.clock)

        def new_timer(canvas, interval=None, callbacks=None):
            t = cls(interval=interval, callbacks=callbacks)
            t.canvas = canvas
            return t
        self.undo = [(FigureCanvasBase, "new_timer",
                      FigureCanvasBase.new_timer)]
        FigureCanvasBase.new_timer = new_timer
        if not self.render:
            self.undo.append((FigureCanvasBase, "draw_idle",
                              FigureCanvasBase.draw_idle))
            FigureCanvasBase.draw_idle = lambda *a, **k: None
        for n in self.PRIM:
            real = getattr(Axes, n)
            self.undo.append((Axes, n, real))

            def wrap(ax, *a, _real=real, **k):
                if self.arm is not None:
                    self.arm -= 1
                    if self.arm < 0:
                        self.arm = None
                        self.failed += 1
                        raise DrawFault("simulated: no memory to draw")
                return _real(ax, *a, **k)
            setattr(Axes, n, wrap)
        mplani.writers._registered["sim"] = SimWriter
        return self

    def __exit__(self, *exc):
        for o, n, v in self.undo:
            setattr(o, n, v)
        mplani.writers._registered.pop("sim", None)
        plt.close("all")

    # -- the user ----------------------------------------------------------
    @staticmethod
    def key(fig, k):
        ev = KeyEvent("key_press_event", fig.canvas, k)
        fig.canvas.callbacks.process("key_press_event", ev)
        ev = KeyEvent("key_release_event", fig.canvas, k)
        fig.canvas.callbacks.process("key_release_event", ev)

    @staticmethod
    def mouse(fig, what, x, y):
        ev = MouseEvent(what, fig.canvas, x, y, 1)
        fig.canvas.callbacks.process(what, ev)

    def click(self, fig, ax):
        x, y = ax.transAxes.transform((.5, .5))
        try:
            self.mouse(fig, "button_press_event", x, y)
        finally:
            try:
                self.mouse(fig, "button_release_event", x, y)
            finally:
                fig.canvas.mouse_grabber = None

    def slide(self, fig, ax, slider, val, drag=None):
        """Takes the slider to `val` (drag: by way of another value)."""
        def at(v):
            f = (v - slider.valmin)/max(1e-9, slider.valmax - slider.valmin)
            return ax.transAxes.transform((f, .5))
        try:
            if drag is not None:
                self.mouse(fig, "button_press_event", *at(drag))
                self.mouse(fig, "motion_notify_event", *at(val))
            else:
                self.mouse(fig, "button_press_event", *at(val))
        finally:
            slider.drag_active = False
            try:
                self.mouse(fig, "button_release_event", *at(val))
            finally:
                fig.canvas.mouse_grabber = None


# what is on the axes ------------------------------------------------------
def r(a):
    return np.ma.filled(np.ma.asarray(a, dtype=float), np.nan).round(9)


def describe(art):
    """(kind, numbers that tell one frame from another)."""
    import matplotlib as mpl
    if isinstance(art, mpl.contour.ContourSet):
        return ("contour", [float(art.zmin), float(art.zmax)])
    if isinstance(art, mpl.quiver.Quiver):
        return ("quiver", np.concatenate([r(art.U).ravel(),
                                          r(art.V).ravel()]).tolist())
    if isinstance(art, mpl.image.AxesImage):
        return ("image", r(art.get_array()).ravel().tolist()
                + r(art.get_extent()).tolist())
    if isinstance(art, mpl.collections.PathCollection):
        return ("scatter", r(art.get_offsets()).ravel().tolist())
    if isinstance(art, mpl.collections.LineCollection):
        return ("stream", np.concatenate(
            [r(s).ravel() for s in art.get_segments()] or [[]]).tolist())
    if isinstance(art, mpl.lines.Line2D):
        return ("line", r(art.get_xydata()).ravel().tolist())
    return (type(art).__name__, [])


def arts(ax):
    out = []
    for a in list(ax.images) + list(ax.collections) + list(ax.lines):
        if a.get_visible():
            out.append(a)
    return out


def same(a, b):
    return a[0] == b[0] and len(a[1]) == len(b[1]) and \
        np.allclose(a[1], b[1], rtol=1e-6, atol=1e-7, equal_nan=True)

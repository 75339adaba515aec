"""Deterministic threads: real threads of which exactly one runs, handing over
at drawn lines of IMTreatment."""
import sys
import threading

from .lines import ROOT


def in_scipy(frame):
    """Called back by one of scipy's solvers (they cannot run twice at
    once)."""
    frame = frame.f_back
    while frame is not None:
        if "/scipy/" in frame.f_code.co_filename:
            return True
        frame = frame.f_back
    return False


class Baton(object):
    """Runs functions in threads; `gaps` are the numbers of lines executed
    between two switches, `picks` which other thread goes on (0..1)."""

    def __init__(self, gaps, picks):
        self.gaps, self.picks = list(gaps), list(picks)
        self.left = self.gaps.pop(0) if self.gaps else None
        self.live = []
        self.sems = []
        self.lines = 0
        self.switches = []
        self._known = {}
        self.main = threading.Semaphore(0)

    def _mine(self, code):
        r = self._known.get(code)
        if r is None:
            r = self._known[code] = code.co_filename.startswith(ROOT)
        return r

    def _tracer(self, i):
        def local(frame, event, arg):
            if event == "line":
                self.line(i, frame)
            return local

        def glob(frame, event, arg):
            return local if self._mine(frame.f_code) else None
        return glob

    def line(self, i, frame):
        self.lines += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0 or in_scipy(frame):
            return
        self.left = max(1, self.gaps.pop(0)) if self.gaps else None
        others = [t for t in self.live if t != i]
        if not others:
            return
        p = self.picks.pop(0) if self.picks else 0.
        j = others[int(p*len(others))]
        self.switches.append((i, frame.f_code.co_name))
        self.sems[j].release()
        self.sems[i].acquire()

    def run(self, funs):
        self.live = list(range(len(funs)))
        self.sems = [threading.Semaphore(0) for _ in funs]

        def body(i, f):
            self.sems[i].acquire()
            sys.settrace(self._tracer(i))
            try:
                f()
            finally:
                sys.settrace(None)
                self.live.remove(i)
                if self.live:
                    self.sems[self.live[0]].release()
                else:
                    self.main.release()
        ts = [threading.Thread(target=body, args=(i, f), daemon=True)
              for i, f in enumerate(funs)]
        for t in ts:
            t.start()
        self.sems[0].release()
        self.main.acquire()
        for t in ts:
            t.join(5)

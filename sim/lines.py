"""Line-level steps inside the code under test (interrupt / crash at an
arbitrary line, deterministic thread switches)."""
import os
import sys

from .core import REPO

ROOT = os.path.join(REPO, "IMTreatment")


class LineSteps(object):
    """Calls act(k) at the k-th line executed inside IMTreatment."""

    def __init__(self, act, only=None):
        self.k = 0
        self.act = act
        self.only = only
        self._known = {}

    def _mine(self, code):
        r = self._known.get(code)
        if r is None:
            r = code.co_filename.startswith(ROOT)
            if r and self.only is not None:
                r = self.only(code)
            self._known[code] = r
        return r

    def _global(self, frame, event, arg):
        if self._mine(frame.f_code):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            k = self.k
            self.k += 1
            self.act(k, frame)
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


def count_lines(fn, only=None):
    steps = LineSteps(lambda k, f: None, only)
    with steps:
        fn()
    return steps.k

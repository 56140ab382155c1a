"""Watches the lines of the repository as they execute (sys.monitoring): to interrupt real code at a chosen point, or to switch threads there."""
import sys

from . import real

MON = sys.monitoring
TOOL = 3
PREFIX = real.REPO.rstrip("/") + "/"
_cb = None
_on = False


def _line(code, line):
    if not code.co_filename.startswith(PREFIX):
        return MON.DISABLE
    if _cb is not None:
        _cb(code, line)


def watch(cb):
    """cb(code, line) before every executed line of the repository; None: stop"""
    global _cb, _on
    _cb = cb
    if cb is not None and not _on:
        MON.use_tool_id(TOOL, "verif")
        MON.register_callback(TOOL, MON.events.LINE, _line)
        _on = True
    if _on:
        MON.set_events(TOOL, MON.events.LINE if cb is not None else 0)


class Points:
    """counts the points passed, or raises at the at-th"""

    def __init__(self, at=None, exc=None, record=False):
        self.at, self.exc, self.n, self.fired = at, exc, 0, None
        self.where = [] if record else None

    def __call__(self, code, line):
        k = self.n
        self.n += 1
        if self.where is not None:
            self.where.append((code.co_filename, line))
        if k == self.at:
            self.fired = (code.co_filename[len(PREFIX):], line, code.co_name)
            watch(None)
            raise self.exc

    def run(self, fn):
        watch(self)
        try:
            return fn()
        finally:
            watch(None)


def choose(where, mode, f, g):
    """the index of the point: uniform over time, or uniform over places and then over visits"""
    if not where:
        return None
    if mode == "time":
        return min(len(where) - 1, int(f * len(where)))
    places = sorted(set(where))
    p = places[min(len(places) - 1, int(f * len(places)))]
    visits = [i for i, w in enumerate(where) if w == p]
    return visits[min(len(visits) - 1, int(g * len(visits)))]

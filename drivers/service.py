"""Shared stand-ins for the service drivers: a recording channel and a counting limiter."""
import threading
from lomond.errors import WebSocketError, WebSocketClosed
from dataplicity.limiter import Limiter


class Channel(object):
    """Records writes, control messages and closes; may report closed from some write on, and fail a write."""

    def __init__(self, close_at=None, fail_at=None, exc=None, live=False):
        self.ev, self.number, self.close_at, self.fail_at, self.exc, self.live = [], 7, close_at, fail_at, exc, live
        self.writes = self.asked = 0
        self.failed = False

    @property
    def is_closed(self):
        return self.close_at is not None and self.writes >= self.close_at

    _closed = is_closed

    def write(self, data):
        if self.live and self.fail_at is not None and self.writes >= self.fail_at:
            self.failed = True
            raise self.exc
        self.writes += 1
        self.ev.append(("write", data))

    def send_control(self, d):
        self.ev.append(("control", d))

    def close(self):
        self.ev.append(("close",))

    def set_callbacks(self, *a, **k):
        pass

    def __repr__(self):
        return "<channel 7>"

    def data(self):
        return b"".join(x[1] for x in self.ev if x[0] == "write")


def launch(cls, lim, ch, *args):
    """(thread or None, text of an exception)"""
    try:
        t = cls(lim, ch, *args)
    except Exception as e:
        return None, "starting the service raised %r" % (e,)
    return t, None


def finish(t, sec=15):
    try:
        t.join(sec)
    except RuntimeError:
        return None
    if t.is_alive():
        return "the service does not end"

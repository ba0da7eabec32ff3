"""Simulated wall clock.  Installed over `datetime`/`time` before the library
is imported; behaves as the real clock until a `Clock` is activated."""
import datetime as _dt
import time as _time

REAL_DT = _dt.datetime
REAL_DATE = _dt.date
_real = {k: getattr(_time, k) for k in
         ("time", "time_ns", "localtime", "gmtime", "strftime")}

ACTIVE = None


class Clock:
    """start: ISO string. jumps: seconds added after each successive read
    (then 0); models slow calls, midnight roll-over, clock steps."""

    def __init__(self, start, jumps=()):
        self.now = REAL_DT.fromisoformat(start)
        self.jumps = list(jumps)
        self.reads = []
        self.shown = [self.now]          # every value it had, in order
        self.slept = 0.0

    def read(self):
        n = self.now
        self.reads.append(n)
        if self.jumps:
            self.advance(self.jumps.pop(0))
        return n

    def advance(self, secs):
        self.now = self.now + _dt.timedelta(seconds=secs)
        self.shown.append(self.now)
        self.slept += secs


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, REAL_DT)

    def __subclasscheck__(cls, c):
        return issubclass(c, REAL_DT)


class SimDatetime(REAL_DT, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        if ACTIVE is None:
            return REAL_DT.now(tz)
        n = ACTIVE.read()
        if tz is None:
            return n
        return n.replace(tzinfo=_dt.timezone.utc).astimezone(tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return cls.now()


class _MetaD(type):
    def __instancecheck__(cls, o):
        return isinstance(o, REAL_DATE)

    def __subclasscheck__(cls, c):
        return issubclass(c, REAL_DATE)


class SimDate(REAL_DATE, metaclass=_MetaD):
    @classmethod
    def today(cls):
        if ACTIVE is None:
            return REAL_DATE.today()
        return ACTIVE.read().date()


def _epoch():
    return ACTIVE.read().replace(tzinfo=_dt.timezone.utc).timestamp()


def install():
    _dt.datetime = SimDatetime
    _dt.date = SimDate

    def time():
        return _real["time"]() if ACTIVE is None else _epoch()

    def time_ns():
        return _real["time_ns"]() if ACTIVE is None else int(_epoch() * 1e9)

    def localtime(s=None):
        return _real["localtime"](_epoch() if s is None and ACTIVE else s)

    def gmtime(s=None):
        return _real["gmtime"](_epoch() if s is None and ACTIVE else s)

    def strftime(fmt, t=None):
        if t is None:
            t = localtime()
        return _real["strftime"](fmt, t)

    _time.time, _time.time_ns = time, time_ns
    _time.localtime, _time.gmtime, _time.strftime = localtime, gmtime, strftime


def activate(clock):
    global ACTIVE
    ACTIVE = clock
    return clock

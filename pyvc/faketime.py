"""Symbolic stand-in for the datetime module.

A FakeDT is an instant (real number of seconds since 2000-01-01T00:00 UTC) plus a zone (naive, UTC or a fixed
offset); time arithmetic is exact (the microsecond rounding of timedelta is not modelled).  Calendar fields are
available when the instant is concrete or was created by `fields` (symbolic local and UTC field sets)."""
from __future__ import annotations
import datetime as rdt
import types

from . import symlib as sl
from . import term as tm

EPOCH = rdt.datetime(2000, 1, 1)
FIELDS = ("year", "month", "day", "hour", "minute", "second", "microsecond")


def T(x):
    t = sl._lift(x)
    if t is None:
        raise TypeError(f"unsupported type for timedelta component: {type(x).__name__}")
    return t


class FakeTD:
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        k = tm.const
        self.s = tm.add(tm.mul(T(days), k(86400)), T(seconds), tm.mul(T(microseconds), k(tm.Q(1, 10 ** 6))), tm.mul(T(milliseconds), k(tm.Q(1, 1000))),
                        tm.mul(T(minutes), k(60)), tm.mul(T(hours), k(3600)), tm.mul(T(weeks), k(604800)))

    @classmethod
    def of(cls, t):
        r = cls()
        r.s = t
        return r

    def total_seconds(self):
        return sl.Sym(self.s)

    def __neg__(self): return FakeTD.of(tm.neg(self.s))
    def __add__(self, o): return FakeTD.of(tm.add(self.s, o.s)) if isinstance(o, FakeTD) else NotImplemented
    def __sub__(self, o): return FakeTD.of(tm.sub(self.s, o.s)) if isinstance(o, FakeTD) else NotImplemented

    def __mul__(self, k):
        return FakeTD.of(tm.mul(self.s, T(k)))
    __rmul__ = __mul__

    def __truediv__(self, k):
        if isinstance(k, FakeTD):
            return sl.Sym(tm.div(self.s, k.s))
        return FakeTD.of(tm.div(self.s, T(k)))

    def _cmp(self, rel, a, b): return sl.decide(rel, tm.sub(a, b))
    def __lt__(self, o): return self._cmp("<", self.s, o.s)
    def __le__(self, o): return self._cmp("<=", self.s, o.s)
    def __gt__(self, o): return self._cmp("<", o.s, self.s)
    def __ge__(self, o): return self._cmp("<=", o.s, self.s)
    def __eq__(self, o): return isinstance(o, FakeTD) and self._cmp("==", self.s, o.s)
    __hash__ = None

    @property
    def days(self):
        return sl.SymInt(tm.fun("floor", tm.mul(self.s, tm.const(tm.Q(1, 86400)))))

    @property
    def seconds(self):
        d = tm.fun("floor", tm.mul(self.s, tm.const(tm.Q(1, 86400))))
        return sl.SymInt(tm.fun("floor", tm.sub(self.s, tm.mul(d, tm.const(86400)))))

    @property
    def microseconds(self):
        # exact arithmetic: the fraction of a second, in microseconds (not rounded to an integer)
        return sl.Sym(tm.mul(tm.sub(self.s, tm.fun("floor", self.s)), tm.const(10 ** 6)))


class FakeTZInfo:
    pass


class FakeTZ(FakeTZInfo):
    def __init__(self, offset, name=None):
        self.off = offset.s

    def utcoffset(self, dt): return FakeTD.of(self.off)
    def __eq__(self, o): return isinstance(o, FakeTZ) and (self.off is o.off)
    __hash__ = object.__hash__


FakeTZ.utc = FakeTZ(FakeTD())


class _Meta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x)


class FakeDT(metaclass=_Meta):
    """u: UTC instant (term); tz: None, or FakeTZ.  A naive time is the clock reading `u` taken as UTC."""

    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        d = rdt.datetime(year, month, day, hour, minute, second, microsecond) - EPOCH
        u = tm.const(tm.Q(d.days * 86400 + d.seconds) + tm.Q(d.microseconds, 10 ** 6))
        self.tz = tzinfo
        self.u = tm.sub(u, tzinfo.off) if tzinfo is not None else u
        self.f = None
        self.futc = None

    @classmethod
    def of(cls, u, tz=None, f=None, futc=None):
        r = object.__new__(cls)
        r.u, r.tz, r.f, r.futc = u, tz, f, futc
        return r

    @property
    def tzinfo(self):
        return self.tz

    def utcoffset(self):
        return None if self.tz is None else FakeTD.of(self.tz.off)

    def replace(self, *a, **kw):
        if a or set(kw) - {"tzinfo"}:
            if self.u.op == "c":
                c = self._conc()
                tz = kw.pop("tzinfo", self.tz)
                r = c.replace(*a, **kw)
                return FakeDT(*[getattr(r, n) for n in FIELDS], tzinfo=tz)
            raise sl.Unsupported("datetime.replace of calendar fields")
        tz = kw["tzinfo"]
        local = tm.add(self.u, self.tz.off) if self.tz is not None else self.u
        return FakeDT.of(tm.sub(local, tz.off) if tz is not None else local, tz, self.f, self.f if tz is None or tz.off is tm.ZERO else None)

    def astimezone(self, tz=None):
        if self.tz is None:
            # system local time zone: unknown
            return FakeDT.of(sl.CTX.fresh("localtime"), tz)
        if tz is None:
            tz = FakeTZ(FakeTD.of(sl.CTX.fresh("localoffset")))
        f = self.f if tz.off is self.tz.off else self.futc if tz.off is tm.ZERO else None
        return FakeDT.of(self.u, tz, f, self.futc)

    def __add__(self, o):
        return FakeDT.of(tm.add(self.u, o.s), self.tz) if isinstance(o, FakeTD) else NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, FakeTD):
            return FakeDT.of(tm.sub(self.u, o.s), self.tz)
        if isinstance(o, FakeDT):
            self._same(o)
            return FakeTD.of(tm.sub(self.u, o.u))
        return NotImplemented

    def _same(self, o):
        if (self.tz is None) != (o.tz is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")

    def _cmp(self, rel, a, b):
        if not isinstance(a, FakeDT) or not isinstance(b, FakeDT):
            return NotImplemented
        a._same(b)
        return sl.decide(rel, tm.sub(a.u, b.u))

    def __lt__(self, o): return self._cmp("<", self, o)
    def __le__(self, o): return self._cmp("<=", self, o)
    def __gt__(self, o): return self._cmp("<", o, self)
    def __ge__(self, o): return self._cmp("<=", o, self)

    def __eq__(self, o):
        return isinstance(o, FakeDT) and (self.tz is None) == (o.tz is None) and sl.decide("==", tm.sub(self.u, o.u))
    __hash__ = object.__hash__

    def _conc(self):
        v = tm.add(self.u, self.tz.off) if self.tz is not None else self.u
        if v.op != "c":
            raise sl.Unsupported("calendar fields of a symbolic instant")
        us = v.args[0] * 10 ** 6
        return EPOCH + rdt.timedelta(microseconds=int(us))

    def __getattr__(self, n):
        if n in FIELDS:
            if self.f is not None:
                return self.f[n]
            return getattr(self._conc(), n)
        if n in ("toordinal", "timetuple", "utctimetuple", "isoweekday", "weekday", "isoformat", "strftime"):
            return getattr(self._conc(), n)
        raise AttributeError(n)

    def timestamp(self):
        if self.tz is None:
            return sl.Sym(sl.CTX.fresh("localtimestamp"))
        return sl.Sym(tm.add(self.u, tm.const(946684800)))

    @classmethod
    def _from(cls, r):
        tz = None
        if r.tzinfo is not None:
            o = r.utcoffset()
            tz = FakeTZ.utc if not o else FakeTZ(FakeTD(seconds=o.days * 86400 + o.seconds))
        return FakeDT(*[getattr(r, n) for n in FIELDS], tzinfo=tz)

    @classmethod
    def fromisoformat(cls, s):
        return cls._from(rdt.datetime.fromisoformat(s))

    @classmethod
    def strptime(cls, s, f):
        return cls._from(rdt.datetime.strptime(s, f))

    @classmethod
    def fromtimestamp(cls, ts, tz=None):
        if tz is None:
            raise sl.Unsupported("local time")
        return FakeDT.of(tm.sub(T(ts), tm.const(946684800)), tz)


def module():
    m = types.ModuleType("datetime")
    m.datetime, m.timedelta, m.timezone, m.tzinfo, m.date = FakeDT, FakeTD, FakeTZ, FakeTZInfo, FakeDT
    m.UTC = FakeTZ.utc
    m.MINYEAR, m.MAXYEAR = rdt.MINYEAR, rdt.MAXYEAR
    return m

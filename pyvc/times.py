"""Symbolic durations and points in time (wall clock, fixed offsets), in whole microseconds as Python keeps them."""
from __future__ import annotations

from datetime import UTC, datetime, timedelta, timezone

import z3

from .values import SFloat, SInt, SVal, Unsupported, _div, cur, force, is_num, mkbool, mkint, mkreal, zi, zr

EPOCH = datetime(1970, 1, 1)
US = timedelta(microseconds=1)
UNITS = {"days": 86_400_000_000, "seconds": 1_000_000, "microseconds": 1, "milliseconds": 1000, "minutes": 60_000_000, "hours": 3_600_000_000, "weeks": 604_800_000_000}
MAX_TD, MIN_DT, MAX_DT = timedelta.max // US, (datetime.min - EPOCH) // US, (datetime.max - EPOCH) // US


def half_even(r):
    """The integer nearest to the real r, the even one of two."""
    f = z3.ToInt(r)
    d = r - z3.ToReal(f)
    return z3.If(d > 0.5, f + 1, z3.If(d < 0.5, f, z3.If(f % 2 == 0, f, f + 1)))


def us(v):
    """z3 microseconds of a duration, None for anything else."""
    if isinstance(v, STimedelta):
        return v.e
    if isinstance(v, timedelta):
        return z3.IntVal(v // US)
    return None


def in_range(e, lo, hi, what):
    if not cur().branch(z3.And(e >= lo, e <= hi)):
        raise OverflowError(what)


class STimedelta(SVal):
    __slots__ = ()
    kind = "timedelta"
    pytype = timedelta
    __hash__ = SVal.__hash__

    @staticmethod
    def of(e):
        e = z3.simplify(e)
        if z3.is_int_value(e) and abs(e.as_long()) <= MAX_TD:
            return timedelta(microseconds=e.as_long())
        in_range(e, -86_400_000_000 * 999_999_999, MAX_TD, "days; must have magnitude <= 999999999")
        return STimedelta(e)

    @staticmethod
    def make(*args, **kw):
        names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
        if len(args) > 7:
            raise TypeError("timedelta expected at most 7 arguments")
        for n, a in zip(names, args):
            if n in kw:
                raise TypeError("argument given by name and position")
            kw[n] = a
        if set(kw) - set(names):
            raise TypeError("unexpected keyword argument")
        whole, part = z3.IntVal(0), None
        for n, v in kw.items():
            v = force(v)
            if not is_num(v):
                raise TypeError(f"unsupported type for timedelta {n} component: {getattr(v, 'pytype', type(v)).__name__}")
            i = zi(v)
            if i is not None:
                whole = whole + i * UNITS[n]
            elif part is not None:
                raise Unsupported("timedelta of several fractions")
            else:
                part = zr(v) * UNITS[n]
        return STimedelta.of(whole if part is None else whole + half_even(part))

    def _cmp(self, o, op):
        b = us(o)
        return NotImplemented if b is None else mkbool(op(self.e, b))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b) if us(o) is not None else False

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b) if us(o) is not None else True

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __add__(self, o):
        b = us(o)
        return NotImplemented if b is None else STimedelta.of(self.e + b)

    __radd__ = __add__

    def __sub__(self, o):
        b = us(o)
        return NotImplemented if b is None else STimedelta.of(self.e - b)

    def __rsub__(self, o):
        b = us(o)
        return NotImplemented if b is None else STimedelta.of(b - self.e)

    def __neg__(self):
        return STimedelta.of(-self.e)

    def __abs__(self):
        return STimedelta.of(z3.If(self.e < 0, -self.e, self.e))

    def __mul__(self, o):
        i = zi(o)
        if i is not None:
            return STimedelta.of(self.e * i)
        r = zr(o)
        return NotImplemented if r is None else STimedelta.of(half_even(z3.ToReal(self.e) * r))

    __rmul__ = __mul__

    def __truediv__(self, o):
        b = us(o)
        if b is not None:
            return SFloat(zr(_div(mkint(self.e), mkint(b))))
        r = zr(o)
        return NotImplemented if r is None else STimedelta.of(half_even(zr(_div(mkint(self.e), o))))

    def __rtruediv__(self, o):
        b = us(o)
        return NotImplemented if b is None else SFloat(zr(_div(mkint(b), mkint(self.e))))

    def __floordiv__(self, o):
        b = us(o)
        if b is None:
            b = zi(o)
            return NotImplemented if b is None else STimedelta.of(zi(mkint(self.e) // mkint(b)))
        return mkint(self.e) // mkint(b)

    def __rfloordiv__(self, o):
        b = us(o)
        return NotImplemented if b is None else mkint(b) // mkint(self.e)

    def __mod__(self, o):
        b = us(o)
        return NotImplemented if b is None else STimedelta.of(zi(mkint(self.e) % mkint(b)))

    def total_seconds(self):
        return SFloat(z3.simplify(z3.ToReal(self.e) / 1_000_000))

    @property
    def days(self):
        return mkint(self.e / 86_400_000_000)

    @property
    def seconds(self):
        return mkint(self.e % 86_400_000_000 / 1_000_000)

    @property
    def microseconds(self):
        return mkint(self.e % 1_000_000)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(timedelta, name):
            raise Unsupported(f"timedelta.{name}")
        raise AttributeError(f"'datetime.timedelta' object has no attribute '{name}'")


def offset(tz):
    """Microseconds a fixed time zone is ahead; None for a naive time."""
    if tz is None:
        return None
    if isinstance(tz, STimezone):
        return us(tz.off)
    if not isinstance(tz, timezone):
        raise Unsupported("a time zone with changing offsets")
    return z3.IntVal(tz.utcoffset(None) // US)


class STimezone(SVal):
    """timezone(symbolic offset)"""

    __slots__ = ("off", "given")
    kind = "timezone"
    pytype = timezone

    @staticmethod
    def make(off, name=None):
        if not cur().branch(z3.And(us(off) > -86_400_000_000, us(off) < 86_400_000_000)):
            raise ValueError("offset must be strictly between -24 h and 24 h")
        t = STimezone(us(off))
        t.off, t.given = off, name
        return t

    __hash__ = SVal.__hash__

    def __eq__(self, o):
        if isinstance(o, (timezone, STimezone)):
            return mkbool(self.e == offset(o))
        return False

    def __ne__(self, o):
        r = self == o
        from .values import s_not

        return s_not(r)

    def __bool__(self):
        return True

    def utcoffset(self, dt):
        return self.off

    def tzname(self, dt):
        if self.given is None:
            raise Unsupported("the name of a symbolic offset")
        return self.given


FIELDS = ("year", "month", "day", "hour", "minute", "second", "microsecond")


def civil(y, m, d, h=0, mi=0, s=0, u=0):
    """z3 microseconds since the epoch of a date of the calendar."""
    y, m, d, h, mi, s, u = map(zi, (y, m, d, h, mi, s, u))
    y2 = z3.If(m <= 2, y - 1, y)
    era = y2 / 400
    yoe = y2 - era * 400
    doy = (153 * (m + z3.If(m > 2, z3.IntVal(-3), z3.IntVal(9))) + 2) / 5 + d - 1
    days = era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
    return (((days * 24 + h) * 60 + mi) * 60 + s) * 1_000_000 + u


def valid(y, m, d, h=0, mi=0, s=0, u=0):
    y, m, d, h, mi, s, u = map(zi, (y, m, d, h, mi, s, u))
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    dim = z3.If(m == 2, z3.If(leap, z3.IntVal(29), z3.IntVal(28)), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))
    return z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= dim, h >= 0, h <= 23, mi >= 0, mi <= 59, s >= 0, s <= 59, u >= 0, u <= 999_999)


class SDatetime(SVal):
    """Wall clock microseconds since 1970 in time zone tz; parts: its fields where it was made of them."""

    __slots__ = ("tz", "parts")
    kind = "datetime"
    pytype = datetime
    __hash__ = SVal.__hash__

    @staticmethod
    def of(e, tz, parts=None, known=False):
        e = z3.simplify(e)
        if not known:
            in_range(e, MIN_DT, MAX_DT, "date value out of range")
        r = SDatetime(e)
        r.tz, r.parts = tz, parts
        return r

    @staticmethod
    def make(*args, tzinfo=None, fold=0, **kw):
        kw.update(zip(FIELDS + ("tzinfo",), args))
        tz = kw.pop("tzinfo", tzinfo)
        if fold or set(kw) - set(FIELDS):
            raise Unsupported("datetime() with other arguments")
        ps = {n: force(kw.get(n, 0)) for n in FIELDS}
        if any(zi(v) is None for v in ps.values()) or not {"year", "month", "day"} <= set(kw):
            raise TypeError("an integer is required")
        if not cur().branch(valid(*ps.values())):
            raise ValueError("a field of the date is out of range")
        return SDatetime.of(civil(*ps.values()), tz, ps, known=True)

    @staticmethod
    def fromtimestamp(ts, tz=None):
        ts = force(ts)
        if not is_num(ts):
            raise TypeError("a number is required")
        if tz is None:
            raise Unsupported("local time")
        off = offset(tz)
        e = zi(ts) * 1_000_000 if zi(ts) is not None else half_even(zr(ts) * 1_000_000)
        in_range(e, MIN_DT, MAX_DT, "timestamp out of range")
        return SDatetime.of(e + off, tz)

    tzinfo = property(lambda self: self.tz)
    fold = property(lambda self: 0)

    def _pair(self, o):
        """(own, other) comparable microseconds; None if one is naive and the other not."""
        if isinstance(o, SDatetime):
            e, tz = o.e, o.tz
        else:
            e, tz = z3.IntVal((o.replace(tzinfo=None) - EPOCH) // US), o.tzinfo
        if tz is self.tz:
            return self.e, e
        a, b = offset(self.tz), offset(tz)
        if (a is None) != (b is None):
            return None
        return self.e - a, e - b

    def _cmp(self, o, op):
        if not isinstance(o, (datetime, SDatetime)):
            return NotImplemented
        p = self._pair(o)
        if p is None:
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return mkbool(op(*p))

    def __eq__(self, o):
        if not isinstance(o, (datetime, SDatetime)):
            return False
        p = self._pair(o)
        return mkbool(p[0] == p[1]) if p else False

    def __ne__(self, o):
        from .values import s_not

        return s_not(self == o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return True

    def __add__(self, o):
        b = us(o)
        return NotImplemented if b is None else SDatetime.of(self.e + b, self.tz)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (datetime, SDatetime)):
            p = self._pair(o)
            if p is None:
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            return STimedelta.of(p[0] - p[1])
        b = us(o)
        return NotImplemented if b is None else SDatetime.of(self.e - b, self.tz)

    def __rsub__(self, o):
        if not isinstance(o, datetime):
            return NotImplemented
        p = self._pair(o)
        if p is None:
            raise TypeError("can't subtract offset-naive and offset-aware datetimes")
        return STimedelta.of(p[1] - p[0])

    def timestamp(self):
        off = offset(self.tz)
        if off is None:
            raise Unsupported("local time")
        return SFloat(z3.simplify(z3.ToReal(self.e - off) / 1_000_000))

    def utcoffset(self):
        if self.tz is None:
            return None
        return self.tz.off if isinstance(self.tz, STimezone) else timedelta(microseconds=offset(self.tz).as_long())

    def tzname(self):
        return None if self.tz is None else self.tz.tzname(None)

    def astimezone(self, tz=None):
        if tz is None or self.tz is None:
            raise Unsupported("local time")
        return SDatetime.of(self.e - offset(self.tz) + offset(tz), tz)

    def replace(self, **kw):
        if set(kw) <= {"tzinfo"}:
            return SDatetime.of(self.e, kw.get("tzinfo", self.tz), self.parts, known=True)
        if self.parts is None:
            raise Unsupported("datetime.replace")
        ps = {**self.parts, **{k: v for k, v in kw.items() if k in FIELDS}}
        return SDatetime.make(**ps, tzinfo=kw.get("tzinfo", self.tz))

    def __getattr__(self, name):
        if name in FIELDS:
            if self.parts is None:
                raise Unsupported("a field of a computed date")
            return self.parts[name]
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(datetime, name):
            raise Unsupported(f"datetime.{name}")
        raise AttributeError(f"'datetime.datetime' object has no attribute '{name}'")


def native_subtrahend(o):
    return isinstance(o, (datetime, timedelta))

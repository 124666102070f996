"""Model of the standard `datetime` module on symbolic integers (exact microseconds, proleptic Gregorian days,
one fixed offset of local time from UTC)."""
import datetime as _dt
import types
import _strptime

import z3

from . import core
from .core import SymInt, SymFloat, SymBool, Sym, And, Or, Unsupported, concretize, mkint
from .strings import SymStr, IntTok, Ch, mk, is_str, conc_str, items_of, str_to_int, DIGITS
from . import regex

US = 10 ** 6
DAY = 86400 * US
EPOCH = _dt.date(1970, 1, 1).toordinal()


class Clock:
    """supplied by the world: now_us() -> microseconds since local midnight of base_ord; tz offset in us."""
    now_us = None
    base_ord = 0
    tz_us = 8 * 3600 * US
    rule = None         # daylight saving: [(from which UTC microsecond, offset in us)], ascending

    def off_utc(self, us):
        """offset in effect at an instant"""
        if self.rule is None:
            return self.tz_us
        for at, off in reversed(self.rule[1:]):
            if us >= at:
                return off
        return self.rule[0][1]

    def off_local(self, us):
        """offset of a local time (PEP 495, fold=0)"""
        if self.rule is None:
            return self.tz_us
        for k in range(len(self.rule) - 1, 0, -1):
            at, off = self.rule[k]
            if us >= at + max(off, self.rule[k - 1][1]):
                return off
        return self.rule[0][1]


CLOCK = Clock()


def simp(x):
    return x


def need_int(x, what="an integer is required"):
    if isinstance(x, (SymFloat, float)) or is_str(x) or x is None:
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
    return x


def in_range(x, lo, hi, msg):
    need_int(x)
    if not And(x >= lo, x <= hi):
        raise ValueError(msg)
    if isinstance(x, SymInt):
        core.note_bounds_lf(x.co, x.k, lo, hi)
    return x


class Model:
    _sx_model = True
    __slots__ = ()


def cmpop(f):
    def g(self, o):
        b = self._cmp(o)
        if b is NotImplemented:
            return NotImplemented
        return f(self._key(), b)
    return g


class Ordered(Model):
    __slots__ = ()
    __lt__ = cmpop(lambda a, b: a < b)
    __le__ = cmpop(lambda a, b: a <= b)
    __gt__ = cmpop(lambda a, b: a > b)
    __ge__ = cmpop(lambda a, b: a >= b)

    def __eq__(self, o):
        b = self._cmp(o)
        return False if b is NotImplemented else self._key() == b

    def __ne__(self, o):
        return core.sx_not(self.__eq__(o))

    def __hash__(self):
        k = self._key()
        return hash(k) if core.HASH_BY_ID is False else (hash(k) if not isinstance(k, Sym) else id(self) >> 4)

    def _sx_has_sym(self):
        return isinstance(self._key(), Sym)

    def _sx_realize(self, m):
        return str(self._real(m))

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __format__(self, spec):
        return self.strftime(spec) if spec else self.__str__()


def to_us(x, unit):
    if isinstance(x, (SymInt, int)):
        return x * unit
    if isinstance(x, float):
        from fractions import Fraction
        return round(Fraction(x) * unit)
    if isinstance(x, SymFloat):
        return mkint(x.rhe(unit))
    raise TypeError("unsupported type for timedelta component: %s" % type(x).__name__)


class timedelta(Ordered):
    __slots__ = ("us",)

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        self.us = (to_us(days, DAY) + to_us(seconds, US) + to_us(microseconds, 1) + to_us(milliseconds, 1000)
                   + to_us(minutes, 60 * US) + to_us(hours, 3600 * US) + to_us(weeks, 7 * DAY))

    @classmethod
    def _of(cls, us):
        r = cls.__new__(cls)
        r.us = us
        return r

    def _key(self): return self.us
    def _cmp(self, o): return o.us if isinstance(o, timedelta) else NotImplemented
    def _real(self, m): return _dt.timedelta(microseconds=core.realize(self.us, m))

    @property
    def days(self): return simp(self.us // DAY)
    @property
    def seconds(self): return simp((self.us % DAY) // US)
    @property
    def microseconds(self): return simp(self.us % US)

    def total_seconds(self):
        return SymFloat._rnd(SymFloat.q(self.us, US)) if isinstance(self.us, SymInt) else self.us / US

    def __add__(self, o):
        if isinstance(o, timedelta): return timedelta._of(self.us + o.us)
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, timedelta): return timedelta._of(self.us - o.us)
        return NotImplemented

    def __neg__(self): return timedelta._of(-self.us)
    def __abs__(self): return timedelta._of(abs(self.us))

    def __mul__(self, o):
        if isinstance(o, (int, SymInt)): return timedelta._of(self.us * o)
        if isinstance(o, (float, SymFloat)): return timedelta._of(to_us(o, 1) if self.us == 1 else mkint(core.round_half_even(core.to_real(o) * core.to_int(self.us))))
        return NotImplemented
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, timedelta): return self.us // o.us
        if isinstance(o, (int, SymInt)): return timedelta._of(self.us // o)
        return NotImplemented

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            a = self.us
            return a._fl() / o.us if isinstance(self.us, Sym) or isinstance(o.us, Sym) else self.us / o.us
        if isinstance(self.us, int) and isinstance(o, (int, float)):
            return timedelta._of((_dt.timedelta(microseconds=self.us) / o) // _dt.timedelta(microseconds=1))
        return timedelta._of(mkint(core.round_half_even(core.to_real(self.us) / core.to_real(o))))

    def __mod__(self, o): return timedelta._of(self.us % o.us)
    def __divmod__(self, o): return self.us // o.us, timedelta._of(self.us % o.us)
    def __bool__(self): return bool(self.us != 0)

    def __str__(self):
        return str(_dt.timedelta(microseconds=concretize(self.us)))

    def __repr__(self): return "timedelta(us=%r)" % (self.us,)


timedelta.resolution = timedelta._of(1)
timedelta.max = timedelta._of(_dt.timedelta.max // _dt.timedelta(microseconds=1))
timedelta.min = timedelta._of(_dt.timedelta.min // _dt.timedelta(microseconds=1))


class tzinfo(Model):
    pass


class timezone(tzinfo):
    def __init__(self, off, name=None):
        self.off = off

    def utcoffset(self, dt): return self.off
    def __eq__(self, o): return isinstance(o, timezone) and self.off == o.off
    __hash__ = None
    def _sx_has_sym(self): return False


class time(Ordered):
    __slots__ = ("us", "tzinfo")

    def __init__(self, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        in_range(hour, 0, 23, "hour must be in 0..23")
        in_range(minute, 0, 59, "minute must be in 0..59")
        in_range(second, 0, 59, "second must be in 0..59")
        in_range(microsecond, 0, 999999, "microsecond must be in 0..999999")
        self.us = simp(((hour * 60 + minute) * 60 + second) * US + microsecond)
        self.tzinfo = tzinfo

    @classmethod
    def _of(cls, us):
        r = time.__new__(time)
        r.us = us
        r.tzinfo = None
        return r

    def _key(self): return self.us
    def _cmp(self, o): return o.us if isinstance(o, time) else NotImplemented

    def _real(self, m):
        return (_dt.datetime(2000, 1, 1) + _dt.timedelta(microseconds=core.realize(self.us, m))).time()

    @property
    def hour(self): return simp(self.us // US // 60 // 60)
    @property
    def minute(self): return simp(self.us // US // 60 % 60)
    @property
    def second(self): return simp(self.us // US % 60)
    @property
    def microsecond(self): return simp(self.us % US)

    def replace(self, hour=None, minute=None, second=None, microsecond=None, tzinfo=None):
        return time(self.hour if hour is None else hour, self.minute if minute is None else minute,
                    self.second if second is None else second, self.microsecond if microsecond is None else microsecond)

    def strftime(self, fmt):
        return strftime(fmt, _dt.date(1900, 1, 1).toordinal(), self.us)

    def isoformat(self, timespec="auto"):
        return iso_time(self.us, timespec)

    __str__ = isoformat

    @classmethod
    def fromisoformat(cls, s):
        s2 = conc_str(s) if isinstance(s, SymStr) and not (5 <= len(s) <= 8) else s
        if isinstance(s2, str):
            t = _dt.time.fromisoformat(s2)
            return cls(t.hour, t.minute, t.second, t.microsecond)
        return datetime.strptime(s2, "%H:%M:%S" if len(s2) == 8 else "%H:%M").time()

    def __bool__(self): return True
    def __repr__(self): return "time(us=%r)" % (self.us,)

    def __reduce__(self): return (time._of, (self.us,))


time.min = time._of(0)
time.max = time._of(DAY - 1)


def iso_time(us, timespec="auto"):
    s = strftime("%H:%M:%S", 1, us)
    if timespec == "minutes":
        return strftime("%H:%M", 1, us)
    if timespec == "seconds":
        return s
    if timespec == "microseconds" or (timespec == "auto" and bool(us % US != 0)):
        return s + strftime(".%f", 1, us)
    if timespec == "milliseconds":
        return s + "." + mk((IntTok(simp(us % US // 1000), 3),))
    return s


class date(Ordered):
    __slots__ = ("ord",)

    def __new__(cls, year=None, month=None, day=None, *a, **k):
        return object.__new__(cls)

    def __init__(self, year, month, day):
        self.ord = ymd_ord(year, month, day)

    @classmethod
    def _of(cls, o):
        r = object.__new__(date)
        r.ord = o
        return r

    def _key(self): return self.ord

    def _cmp(self, o):
        if isinstance(o, datetime) != isinstance(self, datetime):
            return NotImplemented
        return o._key() if isinstance(o, date) else NotImplemented

    def _real(self, m): return _dt.date.fromordinal(core.realize(self.ord, m))

    def _ymd(self):
        o = simp(self.ord)
        if isinstance(o, SymInt):
            o = concretize(o, 400)
            self.ord = o
        return _dt.date.fromordinal(o)

    @property
    def year(self): return self._ymd().year
    @property
    def month(self): return self._ymd().month
    @property
    def day(self): return self._ymd().day
    def toordinal(self): return self.ord
    def weekday(self): return simp((self.ord + 6) % 7)
    def isoweekday(self): return simp((self.ord + 6) % 7 + 1)

    @classmethod
    def today(cls):
        if cls is datetime:
            return datetime.now()
        return now_dt().date()

    @classmethod
    def fromordinal(cls, o):
        return date._of(o) if cls is date else datetime._of(o, 0)

    @classmethod
    def fromtimestamp(cls, ts):
        return datetime.fromtimestamp(ts).date()

    @classmethod
    def fromisoformat(cls, s):
        return cls._of(_dt.date.fromisoformat(conc_str(s) if isinstance(s, SymStr) else s).toordinal())

    def replace(self, year=None, month=None, day=None):
        d = self._ymd()
        return date(d.year if year is None else year, d.month if month is None else month, d.day if day is None else day)

    def __add__(self, o):
        if isinstance(o, timedelta):
            return date._of(simp(self.ord + o.days))
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return date._of(simp(self.ord - o.days))
        if isinstance(o, date) and not isinstance(o, datetime):
            return timedelta._of(simp((self.ord - o.ord) * DAY))
        return NotImplemented

    def strftime(self, fmt): return strftime(fmt, self._ymd().toordinal(), 0)
    def isoformat(self): return self._ymd().isoformat()
    def __str__(self): return self.isoformat()
    def __repr__(self): return "date(%r)" % (self.ord,)
    def timetuple(self): return datetime._of(self.ord, 0).timetuple()


def ymd_ord(y, mo, d):
    need_int(y), need_int(mo), need_int(d)
    if not isinstance(y, Sym) and not isinstance(mo, Sym) and not isinstance(d, Sym):
        return _dt.date(y, mo, d).toordinal()
    in_range(y, 1, 9999, "year is out of range")
    in_range(mo, 1, 12, "month must be in 1..12")
    y, mo = concretize(y, 300), concretize(mo)
    import calendar
    in_range(d, 1, calendar.monthrange(y, mo)[1], "day is out of range for month")
    return simp(_dt.date(y, mo, 1).toordinal() + d - 1)


class datetime(date):
    __slots__ = ("usd", "tzinfo")

    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        self.ord = ymd_ord(year, month, day)
        self.usd = time(hour, minute, second, microsecond).us
        self.tzinfo = tzinfo

    @classmethod
    def _of(cls, o, usd, tz=None):
        r = object.__new__(datetime)
        r.ord, r.usd, r.tzinfo = o, usd, tz
        return r

    @classmethod
    def _norm(cls, o, usd, tz=None):
        """usd may lie outside one day: carry (forks when the carry is symbolic)."""
        usd = simp(usd)
        if isinstance(usd, SymInt):
            if bool(And(usd >= 0, usd < DAY)):
                return cls._of(o, usd, tz)
            c = simp(usd // DAY)
            lo, hi = core.rng(c)
            if lo is not None and hi is not None and hi - lo <= 64:
                c = concretize(c, 800)
        else:
            c = usd // DAY
        return cls._of(simp(o + c), simp(usd - c * DAY), tz)

    def _abs(self):
        return self.ord * DAY + self.usd - (self.tzinfo.off.us if self.tzinfo is not None else 0)

    def _key(self): return self._abs()

    def _cmp(self, o):
        if not isinstance(o, datetime):
            return NotImplemented
        if (o.tzinfo is None) != (self.tzinfo is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return o._abs()

    def _real(self, m):
        return _dt.datetime.combine(_dt.date.fromordinal(core.realize(self.ord, m)), _dt.time()) + \
            _dt.timedelta(microseconds=core.realize(self.usd, m))

    def _sx_has_sym(self): return isinstance(self.ord, Sym) or isinstance(self.usd, Sym)

    hour = property(lambda s: simp(s.usd // US // 60 // 60))
    minute = property(lambda s: simp(s.usd // US // 60 % 60))
    second = property(lambda s: simp(s.usd // US % 60))
    microsecond = property(lambda s: simp(s.usd % US))
    fold = 0

    def date(self): return date._of(self.ord)
    def time(self): return time._of(self.usd)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, fold=None):
        if year is None and month is None and day is None:
            o = self.ord
        else:
            d = self._ymd()
            o = ymd_ord(d.year if year is None else year, d.month if month is None else month, d.day if day is None else day)
        tz = self.tzinfo if tzinfo is True else tzinfo
        if hour is None and minute is None and second is None:
            if microsecond is None:
                return datetime._of(o, self.usd, tz)
            in_range(microsecond, 0, 999999, "microsecond must be in 0..999999")
            return datetime._of(o, simp(self.usd - self.usd % US + microsecond), tz)
        t = time(self.hour if hour is None else hour, self.minute if minute is None else minute,
                 self.second if second is None else second, self.microsecond if microsecond is None else microsecond)
        return datetime._of(o, t.us, tz)

    @classmethod
    def combine(cls, d, t, tzinfo=None):
        if not isinstance(d, date):
            raise TypeError("combine() argument 1 must be datetime.date")
        if not isinstance(t, time):
            raise TypeError("combine() argument 2 must be datetime.time")
        return cls._of(d.ord, t.us, tzinfo)

    @classmethod
    def now(cls, tz=None):
        n = now_dt()
        if tz is not None:
            n = n.astimezone(tz)
        return n

    @classmethod
    def utcnow(cls):
        n = now_dt()
        return cls._norm(n.ord, n.usd - CLOCK.off_local((n.ord - EPOCH) * DAY + n.usd))

    @classmethod
    def fromtimestamp(cls, ts, tz=None):
        if isinstance(ts, (SymInt, int)):
            us = ts * US
        elif isinstance(ts, SymFloat):
            us = mkint(ts.rhe(US))
        elif isinstance(ts, float):
            d = _dt.datetime.fromtimestamp(ts, _dt.timezone.utc) - _dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc)
            us = d // _dt.timedelta(microseconds=1)
        else:
            raise TypeError("an integer is required")
        off = CLOCK.off_utc(us) if tz is None else tz.off.us
        us = simp(us + off)
        if isinstance(us, SymInt):
            return cls._of(simp(EPOCH + us // DAY), simp(us % DAY), tz)
        return cls._of(EPOCH + us // DAY, us % DAY, tz)

    @classmethod
    def utcfromtimestamp(cls, ts):
        r = cls.fromtimestamp(ts, timezone.utc)
        r.tzinfo = None
        return r

    def astimezone(self, tz=None):
        loc = (self.ord - EPOCH) * DAY + self.usd
        cur = CLOCK.off_local(loc) if self.tzinfo is None else self.tzinfo.off.us
        new = timezone(timedelta._of(CLOCK.off_utc(loc - cur))) if tz is None else tz
        return datetime._norm(self.ord, self.usd - cur + new.off.us, new)

    def utcoffset(self): return None if self.tzinfo is None else self.tzinfo.off

    def _ts_us(self):
        off = CLOCK.off_local((self.ord - EPOCH) * DAY + self.usd) if self.tzinfo is None else self.tzinfo.off.us
        return (self.ord - EPOCH) * DAY + self.usd - off

    def timestamp(self):
        us = simp(self._ts_us())
        if isinstance(us, SymInt):
            return SymFloat._rnd(SymFloat.q(us, US))
        return us / US

    @classmethod
    def strptime(cls, s, fmt):
        o, usd = strptime(s, fmt)
        return cls._of(o, usd)

    @classmethod
    def fromisoformat(cls, s):
        r = _dt.datetime.fromisoformat(conc_str(s) if isinstance(s, SymStr) else s)
        return cls(r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond)

    def strftime(self, fmt): return strftime(fmt, self._ymd().toordinal() if any("%" + c in fmt for c in "YmdjyaAbBcxwUD") else 1, self.usd)

    def isoformat(self, sep="T", timespec="auto"):
        return self._ymd().isoformat() + sep + iso_time(self.usd, timespec)

    def __str__(self): return self.isoformat(" ")
    def __repr__(self): return "datetime(%r, %r)" % (self.ord, self.usd)

    def __add__(self, o):
        if isinstance(o, timedelta):
            if isinstance(o.us, int) and o.us % DAY == 0:
                return datetime._of(simp(self.ord + o.us // DAY), self.usd, self.tzinfo)
            return datetime._norm(self.ord, self.usd + o.us, self.tzinfo)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return self + (-o)
        if isinstance(o, datetime):
            return timedelta._of(simp(self._abs() - o._abs()))
        return NotImplemented

    def timetuple(self):
        return TimeTuple(self)

    def ctime(self): raise core.ENG.stop(Unsupported("ctime"))


class TimeTuple:
    """struct_time; the calendar date is only split off when a field asks for it"""

    def __init__(self, dt):
        self._dt, self._t = dt, None

    def _all(self):
        if self._t is None:
            dt, d = self._dt, self._dt._ymd()
            self._t = (d.year, d.month, d.day, dt.hour, dt.minute, dt.second, (d.toordinal() + 6) % 7, d.timetuple().tm_yday, -1)
        return self._t

    def __getitem__(self, i): return self._all()[i]
    def __iter__(self): return iter(self._all())
    def __len__(self): return 9
    def __eq__(self, o): return self._all() == (o._all() if isinstance(o, TimeTuple) else o)
    __hash__ = None
    tm_year = property(lambda s: s[0])
    tm_mon = property(lambda s: s[1])
    tm_mday = property(lambda s: s[2])
    tm_hour = property(lambda s: s._dt.hour)
    tm_min = property(lambda s: s._dt.minute)
    tm_sec = property(lambda s: s._dt.second)
    tm_wday = property(lambda s: s[6])
    tm_yday = property(lambda s: s[7])
    tm_isdst = property(lambda s: -1)


date.min = date._of(1)
date.max = date._of(_dt.date.max.toordinal())
date.resolution = timedelta._of(DAY)
datetime.min = datetime._of(1, 0)
datetime.max = datetime._of(_dt.date.max.toordinal(), DAY - 1)
datetime.resolution = timedelta._of(1)
timezone.utc = timezone(timedelta._of(0))


def now_dt():
    return datetime._norm(CLOCK.base_ord, CLOCK.now_us())


def pad(v, w):
    v = simp(v)
    if isinstance(v, SymInt):
        return (IntTok(v, w),)
    return tuple(str(v).rjust(w, "0"))


def strftime(fmt, o, usd):
    if isinstance(fmt, SymStr):
        fmt = conc_str(fmt)
    out = []
    i = 0
    d = _dt.date.fromordinal(o)
    while i < len(fmt):
        c = fmt[i]
        if c != "%" or i + 1 == len(fmt):
            out.append(c)
            i += 1
            continue
        c = fmt[i + 1]
        i += 2
        if c == "H":
            out.extend(pad(usd // US // 60 // 60, 2))
        elif c == "M":
            out.extend(pad(usd // US // 60 % 60, 2))
        elif c == "S":
            out.extend(pad(usd // US % 60, 2))
        elif c == "f":
            out.extend(pad(usd % US, 6))
        elif c == "T":
            out.extend(items_of(strftime("%H:%M:%S", o, usd)))
        elif c == "R":
            out.extend(items_of(strftime("%H:%M", o, usd)))
        elif c in "YmdjyaAbBwFDxuVGU":
            out.extend(d.strftime("%" + c))
        elif c == "%":
            out.append("%")
        else:
            raise core.ENG.stop(Unsupported("strftime %" + c))
    return mk(out)


W = {"H": (2, 0, 23), "M": (2, 0, 59), "S": (2, 0, 61), "d": (2, 1, 31), "m": (2, 1, 12), "f": (6, 0, 999999), "Y": (4, 1, 9999)}
_tre = None


def strptime(s, fmt):
    if not is_str(s):
        raise TypeError("strptime() argument 1 must be str")
    if isinstance(s, str):
        r = _dt.datetime.strptime(s, fmt)
        return r.toordinal(), ((r.hour * 60 + r.minute) * 60 + r.second) * US + r.microsecond
    v = _fast(s, fmt)
    if v is None:
        v = _slow(s, fmt)
    y = v.get("Y", 1900)
    o = ymd_ord(y, v.get("m", 1), v.get("d", 1))
    t = time(v.get("H", 0), v.get("M", 0), v.get("S", 0), v.get("f", 0))
    return o, t.us


def _fast(s, fmt):
    items = list(s.items)
    toks = []
    i = 0
    while i < len(fmt):
        if fmt[i] == "%":
            if fmt[i + 1] not in W:
                return None
            toks.append(("d", fmt[i + 1]))
            i += 2
        else:
            if fmt[i].isspace() or fmt[i].isalnum():
                if fmt[i] != " ":
                    return None
            toks.append(("l", fmt[i]))
            i += 1
    p = 0
    vals = {}
    for n, (k, c) in enumerate(toks):
        if k == "l":
            if p >= len(items):
                return None
            it = items[p]
            if isinstance(it, IntTok):
                raise ValueError("time data does not match format %r" % fmt)
            if isinstance(it, str):
                if it != c:
                    return None
            elif isinstance(it, Ch):
                return None
            else:
                return None
            p += 1
            continue
        w, lo, hi = W[c]
        if p < len(items) and isinstance(items[p], IntTok) and items[p].width == w:
            v = items[p].v
            p += 1
        else:
            g = items[p:p + w]
            if len(g) < w or not all((isinstance(x, str) and x in "0123456789") or (isinstance(x, Ch) and x.dom <= DIGITS) for x in g):
                return None
            nxt = items[p + w] if p + w < len(items) else None
            if isinstance(nxt, Ch) and nxt.dom & DIGITS and not (n + 1 < len(toks) and toks[n + 1][0] == "d"):
                return None
            v = str_to_int(SymStr(tuple(g)))
            p += w
        # with all w characters digits and a separator (or fixed-width field) next, the field must take all of them
        if n + 1 < len(toks) and toks[n + 1][0] == "d":
            # adjacent fields: an out-of-range first field could give a digit to the next one; only exact when in range
            if not bool(And(v >= lo, v <= hi)):
                return None
        elif not bool(And(v >= lo, v <= hi)):
            raise ValueError("time data does not match format %r" % fmt)
        vals[c] = v
    if p != len(items):
        return None
    return vals


def _slow(s, fmt):
    global _tre
    if _tre is None:
        _tre = _strptime.TimeRE()
    pat = regex.compile(_tre.pattern(fmt), regex.IGNORECASE)
    m = pat.match(s)
    if m is None:
        raise ValueError("time data does not match format %r" % fmt)
    if m.end() != len(s):
        raise ValueError("unconverted data remains")
    g = m.groupdict()
    vals = {}
    for k, t in g.items():
        if t is None:
            continue
        if k == "f":
            n = len(t)
            vals["f"] = (str_to_int(t) if isinstance(t, SymStr) else int(t)) * 10 ** (6 - n)
        elif k in W:
            t = t.strip()
            vals[k] = str_to_int(t) if isinstance(t, SymStr) else int(t)
        else:
            raise core.ENG.stop(Unsupported("strptime %" + k))
    return vals


def make_module():
    m = types.ModuleType("datetime")
    for c in (date, time, datetime, timedelta, timezone, tzinfo):
        setattr(m, c.__name__, c)
    m.UTC = timezone.utc
    m.MINYEAR, m.MAXYEAR = 1, 9999
    return m

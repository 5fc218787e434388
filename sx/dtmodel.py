"""Symbolic model of the datetime module: exact integer seconds and microseconds, proleptic Gregorian calendar.

A day number is turned into (year, month, day) by fresh integers constrained by the defining formula of the
calendar, or - when the harness built that day number from a date - by that date (the formula is a bijection).
"""
import datetime as _dt
import time as _time
import types
import z3
from . import values as V
from .core import Unsupported
from .values import SymInt, SymBool, SymOpaque, is_sym, mkbool, zb, i_divmod

E = V.E
EPOCH = _dt.datetime(1970, 1, 1)
UTC = _dt.timezone.utc
MINSEC = int((_dt.datetime(1, 1, 1) - EPOCH).total_seconds())
MAXSEC = int((_dt.datetime(9999, 12, 31, 23, 59, 59) - EPOCH).total_seconds())
D1970 = _dt.date(1970, 1, 1).toordinal()
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def zi(x):
    return V.toint(x)


def leap_z(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def pick(m, table, start=1):
    e = z3.IntVal(table[-1])
    for i in range(len(table) - 2, -1, -1):
        e = z3.If(m == i + start, z3.IntVal(table[i]), e)
    return e


def day_number_z(y, m, d):
    """days since 1970-01-01 of the date (z3 Int terms)"""
    y1 = y - 1
    before = y1 * 365 + y1 / 4 - y1 / 100 + y1 / 400
    return before + pick(m, CUM) + z3.If(z3.And(m > 2, leap_z(y)), 1, 0) + d - D1970


def valid_date_z(y, m, d):
    return z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1,
                  d <= pick(m, LEN) + z3.If(z3.And(m == 2, leap_z(y)), 1, 0))


def register_date(n, y, m, d):
    """the harness states that day number n is the (valid) date y-m-d"""
    E().reprs.setdefault("dates", []).append((n, (y, m, d)))


def ymd_of(n):
    """(year, month, day) of a day number (SymInt)"""
    e = E()
    if type(n) is not SymInt:
        t = EPOCH + _dt.timedelta(days=n)
        return t.year, t.month, t.day
    known = e.reprs.setdefault("dates", [])
    for n0, r in known:
        if type(n0) is SymInt and n0.kind == n.kind and n0.e.eq(n.e):
            return r
    for n0, r in known:
        if e.is_valid(zi(n0) == zi(n)):
            return r
    ys = [z3.Int(e.fresh(p)) for p in ("year", "month", "day")]
    e.define(z3.And(valid_date_z(*ys), day_number_z(*ys) == zi(n)))
    for t, hi in zip(ys, (9999, 12, 31)):
        V.note_range(t, 1, hi)
    r = (SymInt(ys[0], "i", 1, 9999), SymInt(ys[1], "i", 1, 12), SymInt(ys[2], "i", 1, 31))
    known.append((n, r))
    return r


def _i(x, lo, hi):
    """x (SymInt or int) known to lie in [lo, hi] on this path"""
    if type(x) is SymInt:
        return SymInt(x.e, x.kind, max(lo, x.lo), min(hi, x.hi)) if x.kind == "i" else x
    return x


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real) if isinstance(c, type) else False

    def __getattr__(cls, name):
        return getattr(cls.real, name)


class SymTD(object):
    """timedelta of a symbolic number of microseconds"""
    _sx_model = True

    def __init__(self, us):
        self.us = us

    @property
    def __class__(self):
        return _dt.timedelta

    def __add__(self, o):
        if type(o) is SymDT or type(o) is _dt.datetime:
            return SymDT.of(o)._plus(self.us)
        u = td_us(o)
        return NotImplemented if u is None else mk_td(self.us + u)
    __radd__ = __add__

    def __sub__(self, o):
        u = td_us(o)
        return NotImplemented if u is None else mk_td(self.us - u)

    def __rsub__(self, o):
        if type(o) is SymDT or type(o) is _dt.datetime:
            return SymDT.of(o)._plus(-self.us)
        u = td_us(o)
        return NotImplemented if u is None else mk_td(u - self.us)

    def __neg__(self):
        return mk_td(-self.us)

    def __mul__(self, n):
        return mk_td(self.us * n)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        u = td_us(o)
        return mk_td(self.us // o) if u is None else self.us // u

    def __mod__(self, o):
        return mk_td(self.us % td_us(o))

    def __rfloordiv__(self, o):
        u = td_us(o)
        return NotImplemented if u is None else u // self.us

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        u = td_us(o)
        if u is None:
            return _dt.timedelta(microseconds=V.concretise(self.us)) / V.concretise(o)
        return SymOpaque("truediv", (self.us, u))

    def __abs__(self):
        return mk_td(abs(self.us))

    def __pos__(self):
        return self

    def __eq__(self, o):
        u = td_us(o)
        return False if u is None else self.us == u

    def __ne__(self, o):
        return V.sym_not(self.__eq__(o))

    def __lt__(self, o): return self.us < td_us(o)
    def __le__(self, o): return self.us <= td_us(o)
    def __gt__(self, o): return self.us > td_us(o)
    def __ge__(self, o): return self.us >= td_us(o)
    def __bool__(self): return bool(self.us != 0)
    def __hash__(self): return object.__hash__(self)

    @property
    def days(self): return self.us // 86400000000
    @property
    def seconds(self): return (self.us // 1000000) % 86400
    @property
    def microseconds(self): return self.us % 1000000

    def total_seconds(self):
        return SymOpaque("truediv", (self.us, 1000000))

    def _sx_str(self):
        return str(_dt.timedelta(microseconds=V.concretise(self.us)))

    def __str__(self):
        return self._sx_str()

    def _sx_format(self, spec):
        return format(_dt.timedelta(microseconds=V.concretise(self.us)), spec)


def mk_td(us):
    if type(us) is SymInt:
        return SymTD(us)
    if type(us) is SymOpaque:
        return _dt.timedelta(microseconds=us.concrete())
    return _dt.timedelta(microseconds=us)


def td_us(o):
    if type(o) is SymTD:
        return o.us
    if isinstance(o, _dt.timedelta):
        return (o.days * 86400 + o.seconds) * 1000000 + o.microseconds
    return None


class timedelta(metaclass=_Meta):
    real = _dt.timedelta

    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        a = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not any(is_sym(x) for x in a):
            return _dt.timedelta(*a)
        if any(isinstance(x, float) for x in a):
            return _dt.timedelta(*[V.concretise(x) for x in a])
        us = 0
        for x, f in zip(a, (86400000000, 1000000, 1, 1000, 60000000, 3600000000, 604800000000)):
            us = us + x * f
        r = mk_td(us)
        if type(r) is SymTD:
            lim = 999999999 * 86400000000
            if bool(mkbool(z3.Or(zb(us < -lim), zb(us >= lim + 86400000000)))):
                raise OverflowError("days out of range for timedelta")
        return r


class SymDT(object):
    """datetime: seconds since 1970 and microseconds, possibly symbolic"""
    _sx_model = True

    def __init__(self, secs, us, tz=None):
        self.secs, self.us, self.tz = secs, us, tz
        self._memo = {}

    @property
    def __class__(self):
        return _dt.datetime

    @staticmethod
    def of(o):
        if type(o) is SymDT:
            return o
        d = o.replace(tzinfo=None) - EPOCH
        return SymDT(d.days * 86400 + d.seconds, d.microseconds, o.tzinfo)

    def _plus(self, us):
        t = self.us + us
        if type(t) is SymInt and 0 <= t.lo and t.hi < 1000000:
            return mk_dt(self.secs, t, self.tz, OverflowError("date value out of range"))
        q, r = (t // 1000000, t % 1000000)
        return mk_dt(self.secs + q, r, self.tz, OverflowError("date value out of range"))

    def __add__(self, o):
        u = td_us(o)
        return NotImplemented if u is None else self._plus(u)
    __radd__ = __add__

    def __sub__(self, o):
        u = td_us(o)
        if u is not None:
            return self._plus(-u)
        if isinstance(o, _dt.datetime):
            o = SymDT.of(o)
            if (self.tz is None) != (o.tz is None):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            return mk_td((self.secs - o.secs) * 1000000 + (self.us - o.us))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return SymDT.of(o) - self
        return NotImplemented

    def __eq__(self, o):
        if not isinstance(o, _dt.datetime):
            return False
        o = SymDT.of(o)
        if (self.tz is None) != (o.tz is None):
            return False
        return mkbool(z3.simplify(z3.And(zb(self.secs == o.secs), zb(self.us == o.us))))

    def __ne__(self, o):
        return V.sym_not(self.__eq__(o))

    def _lt(self, o, strict):
        o = SymDT.of(o)
        if (self.tz is None) != (o.tz is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        us = zb(self.us < o.us) if strict else zb(self.us <= o.us)
        return mkbool(z3.Or(zb(self.secs < o.secs), z3.And(zb(self.secs == o.secs), us)))

    def __lt__(self, o): return self._lt(o, True)
    def __le__(self, o): return self._lt(o, False)
    def __gt__(self, o): return V.sym_not(self._lt(o, False))
    def __ge__(self, o): return V.sym_not(self._lt(o, True))
    def __hash__(self): return object.__hash__(self)

    # ------------------------------------------------------------------ fields
    def _get(self, name, f):
        if name not in self._memo:
            self._memo[name] = f()
        return self._memo[name]

    @property
    def _sod(self): return self._get("sod", lambda: self.secs % 86400)
    @property
    def _day(self): return self._get("day", lambda: self.secs // 86400)
    @property
    def hour(self): return self._get("hour", lambda: self._sod // 3600)
    @property
    def minute(self): return self._get("minute", lambda: (self._sod // 60) % 60)
    @property
    def second(self): return self._get("second", lambda: self._sod % 60)
    @property
    def microsecond(self): return self.us
    @property
    def _ymd(self): return self._get("ymd", lambda: ymd_of(self._day))
    @property
    def year(self): return self._ymd[0]
    @property
    def month(self): return self._ymd[1]
    @property
    def day(self): return self._ymd[2]
    @property
    def tzinfo(self): return self.tz
    @property
    def fold(self): return 0

    def replace(self, **k):
        if "tzinfo" in k:
            tz = k.pop("tzinfo")
            if tz is not None and tz is not UTC:
                raise Unsupported("time zone")
            r = SymDT(self.secs, self.us, tz)
        else:
            r = SymDT(self.secs, self.us, self.tz)
        secs = r.secs
        for nm, f in (("hour", 3600), ("minute", 60), ("second", 1)):
            if nm in k:
                secs = secs + (k[nm] - getattr(self, nm)) * f
        us = k.get("microsecond", r.us)
        for nm in k:
            if nm not in ("hour", "minute", "second", "microsecond"):
                raise Unsupported("datetime.replace(%s)" % nm)
        for nm, hi in (("hour", 24), ("minute", 60), ("second", 60), ("microsecond", 1000000)):
            if nm in k and bool(mkbool(z3.Or(zb(k[nm] < 0), zb(k[nm] >= hi)))):
                raise ValueError("%s must be in 0..%d" % (nm, hi - 1))
        return mk_dt(secs, us, r.tz, ValueError("year out of range"))

    def weekday(self):
        return (self._day + 3) % 7

    def isoweekday(self):
        return (self._day + 3) % 7 + 1

    def toordinal(self):
        return self._day + D1970

    def timestamp(self):
        if self.tz is None:
            raise Unsupported("local timestamp")
        return SymOpaque("truediv", (self.secs * 1000000 + self.us, 1000000))

    def astimezone(self, tz=None):
        if self.tz is UTC and tz is UTC:
            return self
        raise Unsupported("astimezone")

    def isoformat(self, sep="T", timespec="auto"):
        out = self.strftime("%Y-%m-%d") + sep + self.strftime("%H:%M:%S")
        if timespec == "auto":
            if bool(self.us != 0):
                out = out + "." + self.strftime("%f")
        elif timespec == "microseconds":
            out = out + "." + self.strftime("%f")
        elif timespec != "seconds":
            raise Unsupported("timespec")
        return out + "+00:00" if self.tz is UTC else out

    def _sx_str(self):
        return self.isoformat(" ")

    def __str__(self):
        return V.concretise(self._sx_str())

    def __repr__(self):
        return repr(self.concrete())

    def _sx_format(self, spec):
        return self.strftime(spec) if spec else self._sx_str()

    def concrete(self):
        return EPOCH + _dt.timedelta(seconds=V.concretise(self.secs), microseconds=V.concretise(self.us))

    def strftime(self, fmt):
        if is_sym(fmt):
            raise Unsupported("symbolic strftime format")
        out, i = [], 0
        f = V.fmt_value

        def num(v, spec, lo, hi):
            return V.items_of(f(_i(v, lo, hi), spec) if type(v) is SymInt else format(v, spec))
        while i < len(fmt):
            c = fmt[i]
            i += 1
            if c != "%" or i >= len(fmt):
                out.append(ord(c))
                continue
            c = fmt[i]
            i += 1
            strip = ""
            if c == "-":
                strip, c = "-", fmt[i]
                i += 1
            two = "" if strip else "02d"
            if c == "I":
                h = self.hour
                h12 = (h + 11) % 12 + 1
                out.extend(num(h12, two, 1, 12))
            elif c == "H":
                out.extend(num(self.hour, two, 0, 23))
            elif c == "M":
                out.extend(num(self.minute, two, 0, 59))
            elif c == "S":
                out.extend(num(self.second, two, 0, 59))
            elif c == "f":
                out.extend(num(self.us, "06d", 0, 999999))
            elif c == "p":
                pm = self.hour >= 12
                if type(pm) is SymBool:
                    out.append(z3.If(pm.e, z3.BitVecVal(80, V.CW), z3.BitVecVal(65, V.CW)))
                else:
                    out.append(80 if pm else 65)
                out.append(77)
            elif c == "d":
                out.extend(num(self.day, two, 1, 31))
            elif c == "m":
                out.extend(num(self.month, two, 1, 12))
            elif c == "Y":
                out.extend(num(self.year, "", 1, 9999))
            elif c == "y":
                out.extend(num(self.year % 100, "02d", 0, 99))
            elif c == "%":
                out.append(37)
            elif c == "T":
                out.extend(V.items_of(self.strftime("%H:%M:%S")))
            elif c == "D":
                out.extend(V.items_of(self.strftime("%m/%d/%y")))
            elif c == "F":
                out.extend(V.items_of(self.strftime("%Y-%m-%d")))
            elif c == "j":
                out.extend(num(self._day - day_number(self.year) + 1, "03d", 1, 366))
            elif c == "R":
                out.extend(V.items_of(self.strftime("%H:%M")))
            elif c in "lke":
                v = {"l": lambda: (self.hour + 11) % 12 + 1, "k": lambda: self.hour, "e": lambda: self.day}[c]()
                out.extend(num(v, "2d", 0, 31))
            elif c == "r":
                out.extend(V.items_of(self.strftime("%I:%M:%S %p")))
            elif c == "z" or c == "Z":
                if self.tz is UTC:
                    out.extend(map(ord, "+0000" if c == "z" else "UTC"))
            else:
                raise Unsupported("strftime directive %%%s" % c)
        return V.mkstr(out)

    def time(self):
        return SymTime(self)

    def timetz(self):
        if self.tz is not None:
            raise Unsupported("time zone")
        return SymTime(self)

    def date(self):
        return SymDate(self._day)

    def timetuple(self):
        return _time.struct_time((self.year, self.month, self.day, self.hour, self.minute, self.second, self.weekday(),
                                  self._day - day_number(self.year) + 1, 0 if self.tz is UTC else -1))

    def utctimetuple(self):
        return _time.struct_time(tuple(self.timetuple())[:-1] + (0,))


def day_number(y):
    """the day number of January 1st"""
    return (y - 1970) * 365 + (y - 1969) // 4 - (y - 1901) // 100 + (y - 1601) // 400


class SymDate(object):
    """date of a symbolic day number (days since 1970)"""
    _sx_model = True

    def __init__(self, n):
        self._dt = SymDT(n * 86400, 0, None)
        self._n = n

    @property
    def __class__(self):
        return _dt.date

    year = property(lambda self: self._dt.year)
    month = property(lambda self: self._dt.month)
    day = property(lambda self: self._dt.day)

    def toordinal(self): return self._n + D1970
    def weekday(self): return self._dt.weekday()
    def isoweekday(self): return self._dt.isoweekday()
    def strftime(self, fmt): return self._dt.strftime(fmt)
    def isoformat(self): return self._dt.strftime("%Y-%m-%d")
    def _sx_str(self): return self.isoformat()
    def __str__(self): return V.concretise(self.isoformat())
    def _sx_format(self, spec): return self.strftime(spec) if spec else self.isoformat()

    def timetuple(self):
        return self._dt.timetuple()

    @staticmethod
    def _num(o):
        if type(o) is SymDate:
            return o._n
        return o.toordinal() - D1970 if type(o) is _dt.date else None

    def __add__(self, o):
        return mk_date(self._n + td_us(o) // 86400000000)
    __radd__ = __add__

    def __sub__(self, o):
        u = td_us(o)
        if u is not None:
            return mk_date(self._n - u // 86400000000)
        return mk_td((self._n - self._num(o)) * 86400000000)

    def __rsub__(self, o):
        return mk_td((self._num(o) - self._n) * 86400000000)

    def __eq__(self, o):
        n = self._num(o)
        return False if n is None else self._n == n

    def __ne__(self, o): return V.sym_not(self.__eq__(o))
    def __lt__(self, o): return self._n < self._num(o)
    def __le__(self, o): return self._n <= self._num(o)
    def __gt__(self, o): return self._n > self._num(o)
    def __ge__(self, o): return self._n >= self._num(o)
    def __hash__(self): return object.__hash__(self)

    def __getattr__(self, name):
        raise AttributeError(name) if name.startswith("_") else Unsupported("date." + name)


def mk_date(n):
    if type(n) is not SymInt:
        return _dt.date.fromordinal(n + D1970)
    if n.lo < MINSEC // 86400 or n.hi > MAXSEC // 86400:
        if bool(mkbool(z3.Or(zb(n < MINSEC // 86400), zb(n > MAXSEC // 86400)))):
            raise OverflowError("date value out of range")
    return SymDate(n)


class SymTime(object):
    """time of day of a datetime"""
    _sx_model = True

    def __init__(self, d):
        self._d = SymDT(d._sod, d.us, None)

    @property
    def __class__(self):
        return _dt.time

    hour = property(lambda self: self._d.hour)
    minute = property(lambda self: self._d.minute)
    second = property(lambda self: self._d.second)
    microsecond = property(lambda self: self._d.us)
    tzinfo = property(lambda self: None)
    fold = property(lambda self: 0)

    def strftime(self, fmt): return self._d.strftime(fmt)
    def _sx_str(self): return self.isoformat()
    def __str__(self): return V.concretise(self.isoformat())
    def _sx_format(self, spec): return self.strftime(spec) if spec else self.isoformat()
    def __hash__(self): return object.__hash__(self)

    def isoformat(self, timespec="auto"):
        out = self._d.strftime("%H:%M:%S")
        if timespec == "microseconds" or (timespec == "auto" and bool(self._d.us != 0)):
            return out + "." + self._d.strftime("%f")
        if timespec not in ("auto", "seconds"):
            raise Unsupported("timespec")
        return out

    def replace(self, **k):
        return SymTime(self._d.replace(**k))

    @staticmethod
    def _key(o):
        return ((o.hour * 60 + o.minute) * 60 + o.second) * 1000000 + o.microsecond

    def __eq__(self, o): return self._key(self) == self._key(o) if isinstance(o, _dt.time) else False
    def __ne__(self, o): return V.sym_not(self.__eq__(o))
    def __lt__(self, o): return self._key(self) < self._key(o)
    def __le__(self, o): return self._key(self) <= self._key(o)
    def __gt__(self, o): return self._key(self) > self._key(o)
    def __ge__(self, o): return self._key(self) >= self._key(o)

    def __getattr__(self, name):
        raise AttributeError(name) if name.startswith("_") else Unsupported("time." + name)


def mk_dt(secs, us, tz, exc):
    """range check, then a datetime"""
    if type(secs) is not SymInt and type(us) is not SymInt:
        if not MINSEC <= secs <= MAXSEC:
            raise exc
        return (EPOCH + _dt.timedelta(seconds=secs, microseconds=us)).replace(tzinfo=tz)
    if type(secs) is SymInt:
        if secs.lo < MINSEC or secs.hi > MAXSEC:
            if bool(mkbool(z3.Or(zb(secs < MINSEC), zb(secs > MAXSEC)))):
                raise exc
    elif not MINSEC <= secs <= MAXSEC:
        raise exc
    return SymDT(secs, us, tz)


_off = [None]


def local_offset(secs):
    """the machine's time zone: an arbitrary function of the instant"""
    f = z3.Function("tzoff", z3.IntSort(), z3.IntSort())
    t = f(zi(secs))
    E().define(z3.And(t > -86400, t < 86400))
    return SymInt(t, "i", -86399, 86399)


class datetime(metaclass=_Meta):
    real = _dt.datetime

    def __new__(cls, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, **k):
        a = (year, month, day, hour, minute, second, microsecond)
        if not any(is_sym(x) for x in a):
            return _dt.datetime(*a, tzinfo=tzinfo, **k)
        if tzinfo not in (None, UTC):
            raise Unsupported("time zone")
        y, m, d = zi(year), zi(month), zi(day)
        if not bool(mkbool(z3.And(valid_date_z(y, m, d), zi(hour) >= 0, zi(hour) < 24, zi(minute) >= 0,
                                  zi(minute) < 60, zi(second) >= 0, zi(second) < 60, zi(microsecond) >= 0,
                                  zi(microsecond) < 1000000))):
            raise ValueError("day is out of range for month")
        if not (is_sym(year) or is_sym(month) or is_sym(day)):
            n = (_dt.date(year, month, day) - _dt.date(1970, 1, 1)).days
        else:
            n = SymInt(day_number_z(y, m, d), "i", -D1970 + 1, 2932896)
            register_date(n, year, month, day)
        return SymDT(((n * 24 + hour) * 60 + minute) * 60 + second, microsecond, tzinfo)

    @staticmethod
    def utcfromtimestamp(t):
        if not is_sym(t):
            return _dt.datetime.utcfromtimestamp(t)
        if type(t) is SymOpaque:
            return _dt.datetime.utcfromtimestamp(t.concrete())
        return mk_dt(t, 0, None, ValueError("year is out of range"))

    @staticmethod
    def fromtimestamp(t, tz=None):
        if not is_sym(t):
            return _dt.datetime.fromtimestamp(t, tz)
        if type(t) is SymOpaque:
            return _dt.datetime.fromtimestamp(t.concrete(), tz)
        if tz is UTC:
            return mk_dt(t, 0, UTC, ValueError("year is out of range"))
        if tz is not None:
            raise Unsupported("time zone")
        return mk_dt(t + local_offset(t), 0, None, ValueError("year is out of range"))

    @staticmethod
    def combine(d, t, tzinfo=None):
        if type(d) is not SymDate and type(t) is not SymTime:
            return _dt.datetime.combine(d, t) if tzinfo is None else _dt.datetime.combine(d, t, tzinfo)
        secs = (d.toordinal() - D1970) * 86400 + (t.hour * 60 + t.minute) * 60 + t.second
        return mk_dt(secs, t.microsecond, tzinfo, ValueError("year is out of range"))

    @staticmethod
    def now(*a):
        raise Unsupported("now")
    utcnow = today = now


datetime_m = types.ModuleType("datetime")
for _k in dir(_dt):
    if not _k.startswith("__"):
        setattr(datetime_m, _k, getattr(_dt, _k))
class date(metaclass=_Meta):
    real = _dt.date

    def __new__(cls, year, month=None, day=None):
        if not (is_sym(year) or is_sym(month) or is_sym(day)):
            return _dt.date(year, month, day)
        return datetime(year, month, day).date()

    @staticmethod
    def fromordinal(n):
        return mk_date(n - D1970)

    @staticmethod
    def today(*a):
        raise Unsupported("today")
    fromtimestamp = today


class time(metaclass=_Meta):
    real = _dt.time

    def __new__(cls, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, **k):
        if not any(is_sym(x) for x in (hour, minute, second, microsecond)):
            return _dt.time(hour, minute, second, microsecond, tzinfo, **k)
        d = datetime(1970, 1, 1, hour, minute, second, microsecond, tzinfo)
        return d.timetz()


datetime_m.datetime = datetime
datetime_m.date = date
datetime_m.time = time
datetime_m.timedelta = timedelta
time_m = None

"""C25 event dates"""
import datetime

from procmon_parser.logs import Event
from rt.common import Scenario

NOTE = """Bounds: every timestamp from 1601-01-01 to the end of 9999, both as a whole number and composed of a date, a
time of day and a fraction."""

LAST = 2650467743999999999  # 9999-12-31 23:59:59.9999999


def whole(lo, hi):
    def run(ctx):
        t = ctx.int("time", lo, hi)
        e = Event(event_class=1, date_filetime=t)
        ctx.eq(e.date(), datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds=t // 10), "date")
        ctx.eq(e.date(is_utc=True), e.date(), "default is UTC")
        ctx.eq(e.date_filetime, t, "timestamp")
    return run


def parts(lo, hi):
    """the civil fields, from a date the solver picks"""
    def run(ctx):
        y, m, d, n = ctx.date("date", lo, hi)
        h, mi, s = ctx.int("hour", 0, 23), ctx.int("minute", 0, 59), ctx.int("second", 0, 59)
        f = ctx.int("fraction", 0, 9999999)
        t = (((n + 134774) * 24 + h) * 60 + mi) * 60 + s
        e = Event(event_class=1, date_filetime=t * 10000000 + f)
        got = e.date()
        ctx.eq((got.year, got.month, got.day, got.hour, got.minute, got.second, got.microsecond),
               (y, m, d, h, mi, s, f // 10), "fields")
    return run


def absent(ctx):
    e = Event(event_class=1, date_filetime=None)
    ctx.eq((e.date(), e.date(True), e.date(False)), (None, None, None), "no timestamp")


def order(ctx):
    """later timestamps never have earlier dates"""
    a, b = ctx.int("a", 0, LAST), ctx.int("b", 0, LAST)
    ctx.assume(a <= b)
    ctx.check(Event(event_class=1, date_filetime=a).date() <= Event(event_class=1, date_filetime=b).date(), "order")


def scenarios(tier):
    return [Scenario("whole", whole(0, LAST), "every timestamp"),
            Scenario("zero", whole(0, 0), "the first timestamp"), Scenario("last", whole(LAST, LAST), "the last"),
            Scenario("parts", parts(1601, 9999), "every date, time of day and fraction", weight=5),
            Scenario("absent", absent, "no timestamp"), Scenario("order", order, "every pair of timestamps")]

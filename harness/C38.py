"""C38 local-time dates"""
import datetime

from procmon_parser.logs import Event
from rt.common import Scenario

NOTE = """Bounds: every timestamp from 1601 to 9999 whose second the platform can convert; the time zone is an arbitrary
function from seconds to offsets, so every zone and every change of it is covered."""

EPOCH = 11644473600


def local(frac):
    def run(ctx):
        s = ctx.int("seconds", 2 * 86400, 265046774399 - 2 * 86400)
        f = ctx.int("fraction", 0, 9999999) if frac else 0
        e = Event(event_class=1, date_filetime=s * 10000000 + f)
        want = datetime.datetime.fromtimestamp(s - EPOCH) + datetime.timedelta(microseconds=f // 10)
        ctx.eq(e.date(is_utc=False), want, "local date")
        ctx.eq(e.date(False), want, "positional")
        ctx.eq(e.date(), datetime.datetime(1601, 1, 1) + datetime.timedelta(seconds=s, microseconds=f // 10), "UTC date")
    return run


def same_instant(ctx):
    """whatever the zone's offset at that second, local minus UTC is that offset"""
    s = ctx.int("seconds", 2 * 86400, 265046774399 - 2 * 86400)
    f = ctx.int("fraction", 0, 9999999)
    e = Event(event_class=1, date_filetime=s * 10000000 + f)
    off = datetime.datetime.fromtimestamp(s - EPOCH) - (datetime.datetime(1970, 1, 1)
                                                        + datetime.timedelta(seconds=s - EPOCH))
    ctx.eq(e.date(is_utc=False) - e.date(is_utc=True), off, "offset")


def scenarios(tier):
    return [Scenario("whole", local(False), "every second", observe=False),
            Scenario("fraction", local(True), "every timestamp", observe=False),
            Scenario("instant", same_instant, "every timestamp", observe=False)]

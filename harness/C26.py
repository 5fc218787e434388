"""C26 CSV time columns"""
import datetime

from procmon_parser.logs import Event, Process
from rt.common import Scenario

NOTE = """Bounds: every instant from 1601 to 9999 with 100 ns resolution, every completion instant not before it, every
first event up to 100 years earlier, every duration up to 2000 years."""


class Instant(object):
    """an instant the solver picks, by its civil fields"""

    def __init__(self, ctx, name, lo=1601, hi=9999):
        self.y, self.mo, self.d, n = ctx.date(name, lo, hi)
        self.h, self.mi = ctx.int(name + ".hour", 0, 23), ctx.int(name + ".minute", 0, 59)
        self.s, self.f = ctx.int(name + ".second", 0, 59), ctx.int(name + ".fraction", 0, 9999999)
        self.t = ((((n + 134774) * 24 + self.h) * 60 + self.mi) * 60 + self.s) * 10000000 + self.f

    def clock(self):
        """hour on the 12-hour dial and its half of the day"""
        h = self.h
        half = "AM"
        if h >= 12:
            half = "PM"
            h = h - 12
        return (12 if h == 0 else h), half

    def time_of_day(self):
        h, half = self.clock()
        return "%d:%02d:%02d.%07d %s" % (h, self.mi, self.s, self.f, half)

    def date_and_time(self):
        h, half = self.clock()
        return "%d/%d/%d %d:%02d:%02d %s" % (self.mo, self.d, self.y, h, self.mi, self.s, half)


def make(t, duration=0):
    return Event(process=Process(), event_class=1, operation="Thread_Create", date_filetime=t, duration=duration,
                 result=0, path="", category="", details={})


def when(lo, hi):
    def run(ctx):
        i = Instant(ctx, "at", lo, hi)
        r = make(i.t).get_compatible_csv_info()
        ctx.eq(r["Time of Day"], i.time_of_day(), "time of day")
        ctx.eq(r["Date & Time"], i.date_and_time(), "date and time")
        ctx.eq(r["Completion Time"], i.time_of_day(), "completion time of an instantaneous event")
        ctx.eq(r["Relative Time"], "00:00:00.0000000", "relative to itself")
        ctx.eq(r["Duration"], "0.0000000", "no duration")
    return run


def completion(lo, hi, half):
    def run(ctx):
        a, b = Instant(ctx, "start", lo, hi), Instant(ctx, "end", lo, hi)
        ctx.assume(a.h >= 12 if half else a.h < 12)
        ctx.assume(a.t <= b.t)
        r = make(a.t, b.t - a.t).get_compatible_csv_info()
        ctx.eq(r["Completion Time"], b.time_of_day(), "completion time")
        ctx.eq(r["Time of Day"], a.time_of_day(), "time of day")
    return run


def duration(hi):
    def run(ctx):
        s, f = ctx.int("seconds", 0, hi), ctx.int("fraction", 0, 9999999)
        # any start, the completion still within the calendar
        t = ctx.int("start", 1, 126227808000000000)
        r = make(t, s * 10000000 + f).get_compatible_csv_info(t)
        ctx.eq(r["Duration"], "%d.%07d" % (s, f), "duration")
    return run


def relative(hours):
    def run(ctx):
        h, m = ctx.int("hours", 0, hours), ctx.int("minutes", 0, 59)
        s, f = ctx.int("seconds", 0, 59), ctx.int("fraction", 0, 9999999)
        first = ctx.int("first", 1, 126227808000000000)
        delta = ((h * 60 + m) * 60 + s) * 10000000 + f
        r = make(first + delta).get_compatible_csv_info(first)
        ctx.eq(r["Relative Time"], "%02d:%02d:%02d.%07d" % (h, m, s, f), "relative time")
    return run


def scenarios(tier):
    out = []
    for lo, hi in ((1601, 1969), (1970, 2099), (2100, 9999)):
        out.append(Scenario("when-%d" % lo, when(lo, hi), "every instant of the years %d to %d" % (lo, hi), weight=9))
        for half in (0, 1):
            out.append(Scenario("completion-%d-%s" % (lo, "ap"[half]), completion(lo, hi, half),
                                "every pair of instants of the years %d to %d" % (lo, hi), weight=9))
    out.append(Scenario("duration", duration(63072000000), "every duration"))
    out.append(Scenario("relative", relative(876000), "every difference"))
    return out

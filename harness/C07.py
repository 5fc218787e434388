"""C07 reader options change only the columns they name"""
from rt.common import Scenario
from spec import pml as P, zoo

NOTE = """Bounds: every kind of event of the zoo with all values of its fields and 2 (thorough 5) frames, and 128 to 300 frames; both
bitnesses, each option on and off."""


def both(kind, is64, depth):
    def run(ctx):
        ev = kind(ctx, is64)
        stack = [ctx.bits("frame%d" % i, 64 if is64 else 32) for i in range(depth)]
        rec = ev.record(is64, tid=ctx.u32("tid"), duration=ctx.u64("duration"), date=ctx.u64("date"),
                        result=ctx.u32("result"), stack=stack)
        data = P.pml(is64=is64, events=[rec, rec])
        full = P.reader(data)[1]
        ctx.eq(list(full.stacktrace), stack, "stack")
        ctx.eq(P.view_details(full), ev.expect(), "with everything on")
        a = P.reader(data, should_get_stacktrace=False)[1]
        ctx.eq(P.view_event(a, stack=False), P.view_event(full, stack=False), "stack traces off: other attributes")
        ctx.eq(list(a.stacktrace), [], "stack traces off: empty stack trace")
    return run


def details_off(kind, is64, depth):
    def run(ctx):
        ev = kind(ctx, is64)
        stack = [ctx.bits("frame%d" % i, 64 if is64 else 32) for i in range(depth)]
        f = dict(tid=ctx.u32("tid"), duration=ctx.u64("duration"), date=ctx.u64("date"), result=ctx.u32("result"))
        data = P.pml(is64=is64, events=[ev.record(is64, stack=stack, **f)])
        e = P.reader(data, should_get_details=False)[0]
        full = P.reader(data)[0]
        ctx.eq((e.tid, e.event_class.name, e.operation, e.date_filetime, e.duration, e.result, list(e.stacktrace)),
               (f["tid"], full.event_class.name, ev.operation, f["date"], f["duration"], f["result"], stack),
               "details off: common columns")
        ctx.eq(P.view_process(e.process), P.view_process(full.process), "details off: process")
        if ev.cls in (2, 3):
            ctx.eq(e.path, ev.path, "details off: path")
        both_off = P.reader(data, should_get_stacktrace=False, should_get_details=False)[0]
        ctx.eq((both_off.tid, both_off.operation, both_off.path, both_off.date_filetime, list(both_off.stacktrace)),
               (e.tid, e.operation, e.path, e.date_filetime, []), "both off")
    return run


def scenarios(tier):
    out = []
    for name in ("RegOpenKey", "CreateFile-result", "Network"):
        for n in (128, 256, 300):
            out.append(Scenario("deep-%s-%d" % (name, n), both(zoo.KINDS[name], n % 3 % 2, n), "%d frames" % n, steps=100000))
    for name, kind in zoo.KINDS.items():
        for is64 in (0, 1):
            out.append(Scenario("stack-%s-%d" % (name, is64), both(kind, is64, 2 if tier == "quick" else 5),
                                "all values of the event's fields, %d frames" % (2 if tier == "quick" else 5)))
            out.append(Scenario("details-%s-%d" % (name, is64), details_off(kind, is64, 1),
                                "all values of the event's fields, 1 frame"))
    return out

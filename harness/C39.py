"""C39 events cut off by the end of the file"""
from io import BytesIO

import procmon_parser
from rt.common import Scenario
from spec import pml as P, zoo
from spec.large import Holes, far_file

NOTE = """Bounds: every kind of event of the zoo with all values of its fields and two frames, lying behind the tables, cut at every
byte (shared out over the scenarios); detail and extra-detail sizes, offsets and stack depths recorded larger than what
the file holds by every amount; both bitnesses, all four settings of the reader options. Outside: blocks that end inside
the file but are shorter than their own contents say."""

OPTIONS = [dict(should_get_stacktrace=s, should_get_details=d) for s in (True, False) for d in (True, False)]


def first(r):
    """the event as values: reading may fail here"""
    return P.view_event(r[1])


def cut(kind, is64, option, part, parts):
    def run(ctx):
        ev = kind(ctx, is64)
        stack = [ctx.bits("frame%d" % i, 64 if is64 else 32) for i in range(2)]
        rec = ev.record(is64, tid=ctx.u32("tid"), duration=ctx.u64("duration"), date=ctx.u64("date"), stack=stack)
        other = P.event(is64, cls=4, op=0, tid=9)
        data = P.pml(is64=is64, events=[other])
        at = len(data)
        data = P.pml(is64=is64, events=[other], offsets=[P.HEADER_SIZE, 0])
        assert len(data) == at + 5
        data = P.pml(is64=is64, events=[other], offsets=[P.HEADER_SIZE, len(data)])
        n = ctx.choice("kept", list(range(len(rec)))[part::parts])
        want = P.view_event(P.reader(data + rec, **option)[1])
        r = P.reader(data + rec[:n], **option)
        got = ctx.outcome(first, r)
        if got.ok:
            ctx.eq(got.value, want, "a cut event")
            ctx.cover("reads")
        else:
            ctx.cover("refused")
        ctx.eq(r[0].tid, 9, "another event")
    return run


def oversize(what, kind, is64):
    """the record says more than the file has left"""
    def run(ctx):
        ev = kind(ctx, is64)
        f = {}
        raw = len(ev.details)
        if what == "details":
            f["details_size"] = raw + ctx.int("surplus", 1, 0x7fffffff)
        elif what == "extra":
            f["extra"] = None
            f["extra_offset"] = P.EVENT_SIZE + raw + ctx.int("beyond", 0, 0x7fffff00)
        rec = ev.record(is64, tid=3, **f)
        other = P.event(is64, cls=4, op=0, tid=9)
        data = P.pml(is64=is64, events=[other], offsets=[0, 0])
        data = P.pml(is64=is64, events=[other], offsets=[len(data), P.HEADER_SIZE])
        if what == "size":
            more = ctx.int("surplus", 1, 0xffff - len(ev.extra))
            rec = rec[:len(rec) - len(ev.extra) - 2] + P.u16(len(ev.extra) + more) + ev.extra
        for option in OPTIONS:
            r = P.reader(data + rec, **option)
            got = ctx.outcome(lambda: P.view_event(r[0]))
            want = P.view_event(P.reader(data + ev.record(is64, tid=3), **option)[0])
            if got.ok:
                ctx.eq(got.value, want, "an event larger than the file")
            ctx.eq(r[1].tid, 9, "another event")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for i, (name, kind) in enumerate(zoo.KINDS.items()):
        for is64 in (0, 1):
            for k, option in enumerate(OPTIONS):
                if not deep and k not in (0, 1 + (i + is64) % 3):
                    continue
                out.append(Scenario("cut-%s-%d-%d" % (name, is64, k), cut(kind, is64, option, 0, 1),
                                    "every cut, all values of the event's fields, options %s" % option, weight=3))
    for name in ("Network", "RegOpenKey", "CreateFile", "ReadFile", "Process_Start", "RegSetValue"):
        for is64 in (0, 1):
            out.append(Scenario("details-%s-%d" % (name, is64), oversize("details", zoo.KINDS[name], is64),
                                "every larger recorded size"))
    for name in ("RegQueryValue", "CreateFile-result", "WriteFile-extra", "QueryDirectory", "RegEnumValue"):
        for is64 in (0, 1):
            out.append(Scenario("size-%s-%d" % (name, is64), oversize("size", zoo.KINDS[name], is64),
                                "every larger recorded size"))
            out.append(Scenario("beyond-%s-%d" % (name, is64), oversize("extra", zoo.KINDS[name], is64),
                                "every offset behind the end"))
    return out

"""C08 extra detail location and isolation"""
from rt.common import Scenario
import procmon_parser
from spec.large import far_file, large
from spec import pml as P, zoo
from spec.pml import u16, u32, u64

NOTE = """Bounds: every kind of event that has an extra block, at gaps of 0 to 64 (thorough 65536) arbitrary bytes and at distances up to
0xfffffff0 in a sparse file, with other records between; every offset up to 12 bytes past the event; blocks of up to 70001
bytes with arbitrary contents at their ends; arbitrary bytes around both blocks."""


def located(kind, is64, gaps, depth):
    """the block lies after an arbitrary gap, with arbitrary bytes before and after it"""
    def run(ctx):
        ev = kind(ctx, is64)
        n = ctx.choice("gap", gaps)
        stack = [ctx.bits("frame%d" % i, 64 if is64 else 32) for i in range(depth)]
        rec = ev.record(is64, stack=stack, gap=ctx.bytes("between", n)) + ctx.bytes("after", 8)
        before = P.event(is64, cls=4, op=0) + ctx.bytes("before", 5)
        e = P.reader(P.pml(is64=is64, events=[before, rec]))[1]
        ctx.eq(P.view_details(e), ev.expect(), "event")
        ctx.eq(list(e.stacktrace), stack, "stack")
    return run


def other_record_between(kind, is64):
    def run(ctx):
        """another event lies between the event and its extra detail"""
        ev = kind(ctx, is64)
        mid = P.event(is64, cls=4, op=0, tid=ctx.u32("mid.tid"), stack=[ctx.bits("mid.f", 64 if is64 else 32)])
        tail = P.event(is64, cls=1, op=3, tid=7, details=u32(ctx.u32("thread")))
        rec = ev.record(is64, gap=mid)
        start = P.HEADER_SIZE
        offs = [start, start + len(rec) - len(ev.extra) - 2 - len(mid), start + len(rec)]
        data = P.pml(is64=is64, events=[rec, tail], offsets=offs)
        r = P.reader(data)
        order = ctx.choice("order", [(0, 1, 2), (2, 1, 0), (1, 0, 2, 0)])
        for i in order:
            e = r[i]
            if i == 0:
                ctx.eq(P.view_details(e), ev.expect(), "event")
            elif i == 1:
                ctx.eq((e.tid, e.event_class.value), (ctx_tid(ctx, mid), 4), "event between")
            else:
                ctx.eq((e.tid, e.event_class.value, e.operation), (7, 1, "Thread_Create"), "event after")
    return run


def ctx_tid(ctx, rec):
    import struct
    return struct.unpack("<I", rec[4:8])[0]


def offset(is64, has_stack):
    def run(ctx):
        """any recorded offset around the event"""
        inf, raw = P.dstr("f", True)
        blk = zoo.blob(ctx, is64, {0xc: u32(77)}, junk=False)
        d = b"\0" * 4 + blk + inf + b"\0\0" + raw
        stack = [1] * has_stack
        size = P.EVENT_SIZE + len(stack) * (8 if is64 else 4) + len(d)
        after = b"".join([bytes([4 + i, 0]) for i in range(10)])  # a size wherever one looks
        off = ctx.int("off", 0, size + 12)
        rec = P.event(is64, cls=3, op=23, details=d, stack=stack, extra_offset=off) + after + b"\0" * 3600
        out = ctx.outcome(lambda: P.reader(P.pml(is64=is64, events=[rec]))[0])
        if off == 0:
            ctx.check(out.ok, "no extra detail")
            ctx.eq(out.value.details["Length"], 77, "no extra detail")
        elif off < size:
            ctx.check(not out.ok, "an offset inside the event is an error")
        else:
            k = ctx.concrete_int(off - size)
            n = after[k] + 256 * after[k + 1]
            ctx.check(out.ok, "readable")
            if n >= 4:
                ctx.eq(out.value.details["Length"], int.from_bytes(after[k + 2:k + 6], "little"), "completed length")
    return run


def bounded_details(is64):
    """the detail block ends where its size says: an unterminated list does not run into what follows"""
    def run(ctx):
        words = [ctx.text("w%d" % i, 1) for i in range(3)]
        d = (u16(0) + b"\0\0" + u32(5) + b"\0" * 36 + P.wide(words[0]) + b"\0\0" + P.wide(words[1]))
        follow = ctx.bytes("follow", 6)
        e = P.reader(P.pml(is64=is64, events=[P.event(is64, cls=5, op=1, details=d) + follow]))[0]
        ctx.assume(words[0] != "Length")
        ctx.eq(list(e.details.items()), [("Length", 5), (words[0], words[1])], "details")
    return run


def bounded_extra(is64, size):
    """the extra block ends where its size says"""
    def run(ctx):
        inf, raw = P.dstr("k", True)
        d = inf + b"\0\0" + u32(0) + u32(2) + raw
        v = ctx.text("v", size)
        extra = b"\0" * 4 + u32(1) + u32(2 * size + 40) + P.wide(v)
        rec = P.event(is64, cls=2, op=5, details=d, extra=extra) + ctx.bytes("follow", 6)
        e = P.reader(P.pml(is64=is64, events=[rec]))[0]
        ctx.eq(e.details["Data"], v, "value")
    return run


def extra_size(is64):
    """every small size of the extra block"""
    def run(ctx):
        inf, raw = P.dstr("f", True)
        d = b"\0" * 4 + zoo.blob(ctx, is64, {0xc: u32(77)}, junk=False) + inf + b"\0\0" + raw
        n = ctx.choice("n", [0, 4, 5, 16, 300])
        extra = ctx.bytes("x", min(n, 8)) + b"z" * (n - min(n, 8))
        rec = P.event(is64, cls=3, op=23, details=d, extra=extra, gap=ctx.bytes("gap", 1)) + b"\0" * 8
        out = ctx.outcome(lambda: P.reader(P.pml(is64=is64, events=[rec]))[0])
        if n >= 4:
            ctx.check(out.ok, "readable")
            ctx.eq(out.value.details["Length"], int.from_bytes(extra[:4], "little"), "completed length")
        else:
            # an empty block holds no completed length
            ctx.check(not out.ok or out.value.details["Length"] == 77, "nothing invented")
    return run


def far(kind, is64, distance):
    """the extra block lies far behind the event, another event and holes between"""
    def run(ctx):
        ev = kind(ctx, is64)
        stack = [ctx.bits("frame", 64 if is64 else 32)]
        at = P.HEADER_SIZE + 16
        rec = ev.record(is64, stack=stack)
        body, tail = rec[:len(rec) - len(ev.extra) - 2], rec[len(rec) - len(ev.extra) - 2:]
        rec = body[:48] + u32(distance) + body[52:]
        mid = P.event(is64, cls=4, op=0, tid=ctx.u32("mid"))
        f = far_file(is64, [(at, rec), (at + len(rec), mid), (at + distance - 3, ctx.bytes("before", 3)), (at + distance, tail),
                            (at + distance + len(tail), ctx.bytes("after", 3))], 1 << 33, offsets=[at, at + len(rec)])
        r = procmon_parser.ProcmonLogsReader(f)
        ctx.eq(P.view_details(r[0]), ev.expect(), "event")
        ctx.eq(list(r[0].stacktrace), stack, "stack")
        ctx.eq(r[1].tid, int.from_bytes(mid[4:8], "little"), "event between")
    return run


def big_blocks(is64, ndetail, nextra):
    """large detail and extra detail blocks"""
    def run(ctx):
        v = ctx.bytes("v", ndetail)
        d = P.info(1, True) + b"\0\0" + u32(3) + u32(ndetail) + u32(ndetail) + b"k" + v
        w = ctx.bytes("w", nextra - 12)
        q = P.info(1, True) + b"\0\0" + u32(nextra) + u32(2) + b"q"
        x = ctx.bytes("title", 4) + u32(3) + u32(nextra - 12) + w
        evs = [P.event(is64, cls=2, op=zoo.REG["RegSetValue"], details=d, stack=[1] * 3),
               P.event(is64, cls=2, op=zoo.REG["RegQueryValue"], details=q, stack=[2] * 2, extra=x, gap=ctx.bytes("gap", 2)),
               P.event(is64, cls=2, op=zoo.REG["RegQueryValue"], details=q, extra=x[:4] + u32(4) + u32(4) + w)]
        r = P.reader(P.pml(is64=is64, events=evs))
        ctx.eq(r[0].details["Data"], v, "detail")
        ctx.eq(r[1].details["Data"], w, "extra detail")
        ctx.eq(r[2].details["Data"], int.from_bytes(w[:4], "little"), "extra detail")
        ctx.eq((r[0].path, r[1].path, list(r[1].stacktrace)), ("k", "q", [2, 2]), "other fields")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    ex = ["RegCreateKey", "RegOpenMax", "RegQueryKey-Full", "RegQueryKey-Name", "RegQueryValue", "RegEnumValue",
          "CreateFile-result", "WriteFile-extra", "QueryDirectory", "QueryDirectory-filter"]
    plain = ["RegOpenKey", "RegSetValue", "RegRenameKey", "CreateFile", "ReadFile", "Network", "Process_Start",
             "FSCTL", "Thread_Create"]
    for is64 in (0, 1):
        for k in ("RegQueryValue", "WriteFile-extra", "QueryDirectory"):
            for n in (0x7fff, 0x8000, 0xffff, 0x10000, 0x12345, 0x7fffff00, 0x80000000, 0xfffffff0):
                out.append(Scenario("far-%s-%d-%x" % (k, is64, n), far(zoo.KINDS[k], is64, n), "extra block %d bytes away" % n))
        for a, b in ((255, 127), (256, 255), (300, 256), (32767, 32767), (32768, 32768), (65535, 65535), (65536, 40000), (70001, 300)):
            out.append(Scenario("big-%d-%d-%d" % (is64, a, b), large(big_blocks(is64, a, b)), "blocks of %d and %d bytes" % (a, b),
                                steps=400000))
        for k in ex:
            out.append(Scenario("located-%s-%d" % (k, is64),
                                located(zoo.KINDS[k], is64, [0, 1, 2, 7, 64] + ([1000, 65536] if deep else []), 1),
                                "gaps of 0,1,2,7,64 arbitrary bytes, arbitrary surroundings"))
            out.append(Scenario("between-%s-%d" % (k, is64), other_record_between(zoo.KINDS[k], is64),
                                "another event between, 3 reading orders"))
        for k in plain:
            out.append(Scenario("located-%s-%d" % (k, is64), located(zoo.KINDS[k], is64, [0], 1),
                                "no extra block, arbitrary surroundings"))
        for s in (0, 2):
            out.append(Scenario("offset-%d-%d" % (is64, s), offset(is64, s),
                                "every offset up to 12 past the event", weight=3))
        out.append(Scenario("details-bound-%d" % is64, bounded_details(is64), "arbitrary names, values and following "
                            "bytes"))
        for n in (0, 1, 3):
            out.append(Scenario("extra-bound-%d-%d" % (is64, n), bounded_extra(is64, n), "%d arbitrary characters" % n))
        out.append(Scenario("extra-size-%d" % is64, extra_size(is64), "blocks of 0,4,5,16,300 bytes"))
    return out

"""C04 common event fields and stack traces"""
from collections import OrderedDict

from rt.common import Scenario
from spec import pml as P, tables as T

NOTE = """Bounds: every class, operation and process number and every value of every common field; 0, 1 and 3 arbitrary frames and 64 to
65535 frames of which three are arbitrary; records cut at every byte; both bitnesses."""

# a detail block that every operation of the class can be read from
BODY = {1: b"\0" * 96, 2: b"\0" * 96, 3: b"\0" * 60 + b"\2\x80\0\0ab" + b"\0" * 100, 4: b"", 5: b"\0" * 48}


def body(cls, is64):
    if cls != 3:
        return BODY[cls]
    return b"\0" * (4 + 0x14 + 5 * (8 if is64 else 4)) + b"\2\x80\0\0C:" + b"\0" * 100


def fields(cls, op, is64, depth):
    def run(ctx):
        w = 64 if is64 else 32
        f = dict(process=3, tid=ctx.u32("tid"), cls=cls, op=op, duration=ctx.u64("duration"), date=ctx.u64("date"),
                 result=ctx.u32("result"), stack=[ctx.bits("frame%d" % i, w) for i in range(depth)],
                 unknown=(ctx.u16("unk0"), ctx.u32("unk1"), ctx.u16("unk2")))
        e = P.one_event(P.event(is64, details=body(cls, is64), **f), is64=is64,
                        procs=[P.default_process(is64, index=7, pid=70), P.default_process(is64, index=3, pid=30)])
        ctx.eq(OrderedDict([("tid", e.tid), ("duration", e.duration), ("date", e.date_filetime), ("result", e.result),
                            ("stack", list(e.stacktrace)), ("class", e.event_class.name), ("pid", e.process.pid)]),
               OrderedDict([("tid", f["tid"]), ("duration", f["duration"]), ("date", f["date"]),
                            ("result", f["result"]), ("stack", f["stack"]), ("class", T.CLASS_NAME[cls]),
                            ("pid", 30)]), "fields")
    return run


def operation(cls, is64, depth):
    def run(ctx):
        """every operation number of a class"""
        op = ctx.u16("op")
        frames = [ctx.bits("frame%d" % i, 64 if is64 else 32) for i in range(depth)]
        tid = ctx.u32("tid")
        out = ctx.outcome(P.one_event, P.event(is64, cls=cls, op=op, tid=tid, stack=frames, details=body(cls, is64)),
                          is64=is64)
        ctx.check(ctx.either(*[op == k for k in T.OPERATIONS[cls]]) == out.ok,
                  "readable exactly when the operation is known")
        if not out.ok:
            return
        e = out.value
        ctx.eq((e.event_class.name, e.tid, list(e.stacktrace)), (T.CLASS_NAME[cls], tid, frames), "fields")
        for k, name in T.OPERATIONS[cls].items():
            if op == k:
                if cls == 5:
                    name = "UDP " + name
                ctx.eq(e.operation, name, "operation name")
    return run


def klass(is64):
    def run(ctx):
        cls = ctx.u32("class")
        out = ctx.outcome(P.one_event, P.event(is64, cls=cls, op=1, details=body(3, is64)), is64=is64)
        if out.ok:
            for k in T.CLASS_NAME:
                if cls == k:
                    ctx.eq((out.value.event_class.name, out.value.event_class.value), (T.CLASS_NAME[k], k), "class")
            ctx.check(ctx.either(*[cls == k for k in T.CLASS_NAME]), "an unknown class is an error")
        else:
            ctx.check(ctx.both(*[cls != k for k in (1, 2, 3, 4)]), "a known class is readable")
    return run


def process_index(is64):
    def run(ctx):
        """the event's process is the one with that index, whatever its position"""
        i = ctx.u32("index")
        procs = [P.default_process(is64, index=k, pid=p) for k, p in ((5, 50), (0, 60), (1, 70))]
        out = ctx.outcome(P.one_event, P.event(is64, process=i, cls=4, op=0), is64=is64, procs=procs)
        ctx.check(ctx.either(i == 5, i == 0, i == 1) == out.ok, "an unknown process is an error")
        if out.ok:
            pid = ctx.ite(i == 5, 50, ctx.ite(i == 0, 60, 70))
            ctx.eq(out.value.process.pid, pid, "process")
    return run


def truncated(cls, is64):
    def run(ctx):
        """a record cut by the end of the file is an error"""
        n = ctx.choice("cut", list(range(0, P.EVENT_SIZE)))
        ev = P.event(is64, cls=cls, op=0 if cls == 4 else 1, tid=ctx.u32("tid"), details=body(cls, is64))
        data = P.pml(is64=is64, events=[P.event(is64, cls=4, op=0)])
        at = len(data)
        data = P.pml(is64=is64, events=[P.event(is64, cls=4, op=0)], offsets=[at])
        r = P.reader(data + ev[:n])
        out = ctx.outcome(lambda: r[0])
        ctx.check(not out.ok, "a cut event record is an error")
    return run


def deep_stack(cls, is64, depth):
    """many frames; some of them, the other fields and the details are arbitrary"""
    def run(ctx):
        w = 64 if is64 else 32
        spots = (0, depth // 2, depth - 1)
        stack = [ctx.bits("frame%d" % i, w) if i in spots else 0x10000 + 7 * i for i in range(depth)]
        f = dict(tid=ctx.u32("tid"), cls=cls, op=1 if cls == 2 else 0, duration=ctx.u64("duration"), date=ctx.u64("date"),
                 result=ctx.u32("result"), stack=stack)
        d, path = b"", ""
        if cls == 2:
            path = ctx.text("path", 2)
            inf, raw = P.dstr(path, False)
            d = inf + b"\0" * 6 + raw
        data = P.pml(is64=is64, events=[P.event(is64, details=d, **f), P.event(is64, cls=4, op=0, tid=5)])
        for keep in (True, False):
            r = P.reader(data, should_get_stacktrace=keep)
            e = r[0]
            ctx.eq(list(e.stacktrace), stack if keep else [], "stack")
            ctx.eq((e.tid, e.duration, e.date_filetime, e.result, e.path), (f["tid"], f["duration"], f["date"], f["result"], path),
                   "fields")
            ctx.eq(r[1].tid, 5, "next event")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for is64 in (0, 1):
        for cls in (1, 2, 3, 4, 5):
            for depth in (0, 1, 3) + ((16, 64) if deep else ()):
                out.append(Scenario("fields-%d-%d-%d" % (cls, is64, depth),
                                    fields(cls, 0 if cls in (2, 4, 5) else 1 if cls == 1 else 20, is64, depth),
                                    "all values of every common field, %d frames" % depth))
            out.append(Scenario("operation-%d-%d" % (cls, is64), operation(cls, is64, 2),
                                "all 16-bit operation numbers, 2 arbitrary frames", weight=4))
            out.append(Scenario("cut-%d-%d" % (cls, is64), truncated(cls, is64), "every length below the record's"))
        for n in (64, 65, 127, 128, 200, 255, 256, 257, 300, 1025, 4097, 65535) + ((1000, 8192, 16384, 32769) if deep else ()):
            for cls in (2, 4):
                out.append(Scenario("deep-%d-%d-%d" % (cls, is64, n), deep_stack(cls, is64, n),
                                    "%d frames, three of them arbitrary" % n, steps=400000))
        out.append(Scenario("class-%d" % is64, klass(is64), "all 32-bit class numbers"))
        out.append(Scenario("process-%d" % is64, process_index(is64), "all 32-bit process indexes, 3 processes"))
    return out

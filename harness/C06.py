"""C06 reading a whole log is complete or fails loudly"""
from io import BytesIO

import procmon_parser
from rt.common import Scenario
from spec import pml as P, tables as T
from spec.large import far_file
from harness.C04 import body

NOTE = """Bounds: 2 to 3 events of which one, at any position, is arbitrary in its class, operation, process, sizes, or in all bytes of
its details; 128 to 257 (thorough 1000) events; files beyond 8 GB; in-memory, file and class interfaces."""


def good(ctx, i, is64):
    return P.event(is64, cls=4, op=0, tid=ctx.u32("tid%d" % i), duration=0, result=0, unknown=(0, 0, 0))


def compare(ctx, data, n):
    """read_all against by-index access, whatever the file holds"""
    out = ctx.outcome(procmon_parser.read_all_events_from_pml, BytesIO(data))
    each = []
    r = P.reader(data)
    for i in range(n):
        each.append(ctx.outcome(lambda: r[i]))
    if out.ok:
        ctx.eq(len(out.value), n, "as many events as recorded")
        for i in range(n):
            ctx.check(each[i].ok, "every returned event is readable by index")
            ctx.eq(P.view_event(out.value[i]), P.view_event(each[i].value), "same event")
    else:
        ctx.check(any(not e.ok for e in each), "a file whose events are all readable is read")
    # iterating a reader must not lose events silently either
    it = ctx.outcome(lambda: [e.tid for e in P.reader(data)])
    ctx.eq(it.ok, out.ok, "iteration agrees")
    if it.ok:
        ctx.eq(len(it.value), n, "iteration is complete")


def one_bad(make, n, is64):
    """event number k is arbitrary within its kind, the others are plain"""
    def run(ctx):
        k = ctx.choice("k", list(range(n)))
        evs = [make(ctx, is64) if i == k else good(ctx, i, is64) for i in range(n)]
        compare(ctx, P.pml(is64=is64, events=evs), n)
    return run


def bad_class(ctx, is64):
    return P.event(is64, cls=ctx.u32("cls"), op=1, details=body(3, is64))


def bad_process(ctx, is64):
    return P.event(is64, process=ctx.u32("proc"), cls=4, op=0)


def bad_op(cls):
    def make(ctx, is64):
        return P.event(is64, cls=cls, op=ctx.u16("op"), details=body(cls, is64))
    return make


def short_details(cls, op):
    """details of any length up to a bound, with arbitrary contents"""
    def make(ctx, is64):
        n = ctx.choice("n", list(range(0, 11)))
        return P.event(is64, cls=cls, op=op, details=ctx.bytes("d%d" % n, n))
    return make


def fs_event(op):
    """a file-system event with arbitrary sub-operation, path of 0..2 characters and arbitrary details"""
    def make(ctx, is64):
        n = ctx.choice("plen", [0, 1, 2])
        asc = ctx.choice("ascii", [True, False])
        inf, raw = P.dstr(ctx.text("path%d" % n, n, "ascii1"), asc)
        m = ctx.choice("flen", [0, 1])
        inf2, raw2 = P.dstr(ctx.text("filter%d" % m, m, "ascii1"), True)
        sub = ctx.choice("sub", [0, 1, 2, 77])
        head = P.u8(sub) + b"\0\0\0" + b"\0" * ((8 if is64 else 4) * 5 + 0x14 - 8) + b"\2\0\0\0" * 2
        details = head + inf + b"\0\0" + raw + inf2 + raw2
        ex = ctx.choice("extra", [None, b"", b"\0" * 4, b"\0" * 80])
        return P.event(is64, cls=3, op=op, details=details, extra=ex)
    return make


def any_text(ctx, is64):
    """a path of arbitrary bytes that claims to be ASCII"""
    return P.event(is64, cls=2, op=2, details=P.u16(0x8000 | 2) + ctx.bytes("path", 2))


def reg_event(op, classes):
    def make(ctx, is64):
        inf, raw = P.dstr("K", True)
        d = inf + b"\0\0" + P.u32(0) + (P.u32(1) if op in (8, 7) else b"") + P.u32(ctx.u32("class")) + raw
        return P.event(is64, cls=2, op=op, details=d,
                       extra=ctx.choice("extra", [None, b"", b"\0" * 4, b"\0" * 60]))
    return make


def extra_offset(ctx, is64):
    inf, raw = P.dstr("f", True)
    d = b"\0" * (4 + (8 if is64 else 4) * 5 + 0x14) + inf + b"\0\0" + raw
    return P.event(is64, cls=3, op=24, details=d, extra_offset=ctx.int("off", 0, 140),
                   tid=0, duration=0, result=0, unknown=(0, 0, 0))


def sources(ctx):
    """a path, a file object and a list give the same"""
    n = ctx.choice("n", [0, 1, 4])
    data = P.pml(events=[good(ctx, i, 1) for i in range(n)])
    f = BytesIO(data)
    got = procmon_parser.read_all_events_from_pml(f)
    ctx.eq([e.tid for e in got], [P.reader(data)[i].tid for i in range(n)], "all events")
    r = P.reader(data)
    ctx.eq(len(got), len(r), "count")
    ctx.eq([P.view_event(e) for e in got], [P.view_event(e) for e in r], "same as iteration")


def by_path(is64, n, k):
    """a file given by its path, whatever one event's class is"""
    def run(ctx):
        evs = [P.event(is64, cls=ctx.u32("cls"), op=ctx.u16("op"), tid=ctx.u32("tid"), details=body(4, is64)) if i == k else
               good(ctx, i, is64) for i in range(n)]
        data = P.pml(is64=is64, events=evs)
        a = ctx.outcome(procmon_parser.read_all_events_from_pml, ctx.file(data))
        b = ctx.outcome(procmon_parser.read_all_events_from_pml, BytesIO(data))
        ctx.eq(a.ok, b.ok, "a path reads like a stream")
        if a.ok:
            ctx.eq([P.view_event(e) for e in a.value], [P.view_event(e) for e in b.value], "events")
            r = P.reader(data)
            ctx.eq(len(a.value), len(r), "count")
            ctx.eq([P.view_event(e) for e in a.value], [P.view_event(r[i]) for i in range(n)], "events by index")
    return run


class Raw(BytesIO):
    """a stream with the attributes of an open file"""
    name, mode, raw = "Logfile.PML", "rb", None

    def fileno(self):
        return 3


def file_like(is64):
    """a stream that looks like a file on disk reads the same, stacks and details included"""
    def run(ctx):
        evs = [P.event(is64, cls=5, op=3, tid=ctx.u32("tid"), stack=[ctx.bits("addr", 64 if is64 else 32)], details=body(5, is64)),
               good(ctx, 1, is64)]
        data = P.pml(is64=is64, events=evs)
        a = ctx.outcome(procmon_parser.read_all_events_from_pml, Raw(data))
        ctx.check(a.ok, "readable")
        r = P.reader(data)
        ctx.eq([P.view_event(e) for e in a.value], [P.view_event(r[i]) for i in range(2)], "events by index")
        ctx.eq(len(a.value[0].stacktrace), 1, "stack")
    return run


def many(n, is64):
    def run(ctx):
        spots = set([0, n - 1, n - 2] + [k for k in (127, 128, 255, 256) if k < n])
        evs = [good(ctx, i, is64) if i in spots else P.event(is64, cls=4, op=0, tid=1000 + i) for i in range(n)]
        data = P.pml(is64=is64, events=evs)
        got = procmon_parser.read_all_events_from_pml(BytesIO(data))
        r = P.reader(data)
        ctx.eq(len(got), n, "count")
        ctx.eq([e.tid for e in got], [r[i].tid for i in range(n)], "same as by index")
        bad = P.pml(is64=is64, events=evs[:-1] + [P.event(is64, process=ctx.u32("bad") | 1, cls=4, op=0)])
        ctx.check(not ctx.outcome(procmon_parser.read_all_events_from_pml, BytesIO(bad)).ok, "last event is unreadable")
    return run


def far(is64):
    """events anywhere in the first 4 GB of a large file"""
    def run(ctx):
        at = [P.HEADER_SIZE, 0x7fffff00, 0x80000000, 0xfffff000]
        tids = [ctx.u32("tid%d" % i) for i in range(4)]
        f = far_file(is64, [(o, P.event(is64, cls=4, op=0, tid=t)) for o, t in zip(at, tids)], 1 << 33)
        ctx.eq([e.tid for e in procmon_parser.read_all_events_from_pml(f)], tids, "all events")
    return run


def scenarios(tier):
    out = [Scenario("sources", sources, "0, 1 or 4 events with arbitrary thread ids")]
    for n in (128, 255, 256, 257) + ((1000,) if tier == "thorough" else ()):
        out.append(Scenario("many-%d" % n, many(n, n % 2), "%d events, some of them arbitrary" % n, weight=2, steps=1000000))
    for is64 in (0, 1):
        for n, k in ((0, 0), (1, 0), (3, 0), (3, 2)):
            out.append(Scenario("path-%d-%d-%d" % (is64, n, k), by_path(is64, n, k), "%d events, one arbitrary, by path" % n))
        out.append(Scenario("file-like-%d" % is64, file_like(is64), "two events"))
        out.append(Scenario("far-%d" % is64, far(is64), "a file of more than 8 GB"))
    n = 3
    for is64 in (0, 1):
        for name, make in [("class", bad_class), ("process", bad_process), ("extra-offset", extra_offset), ("text", any_text)] + \
                [("op-%d" % c, bad_op(c)) for c in (1, 2, 3, 5)] + \
                [("short-%d-%d" % (c, o), short_details(c, o)) for c, o in
                 ((1, 1), (1, 5), (2, 14), (2, 3), (5, 1), (3, 20))] + \
                [("fs-%d" % o, fs_event(o)) for o in sorted(T.OPERATIONS[3]) if tier == "thorough" or
                 T.OPERATIONS[3][o] in ("DirectoryControl", "CreateFile", "ReadFile", "QueryInformationFile",
                                        "FileSystemControl", "SetInformationFile", "CreateFileMapping")] + \
                [("reg-%d" % o, reg_event(o, None)) for o in (3, 5, 7, 8)]:
            nn = n if tier == "thorough" or name in ("class", "process") else 2
            out.append(Scenario("%s-%d" % (name, is64), one_bad(make, nn, is64),
                                "%d events, one of them (at any position) arbitrary: %s" % (nn, name), weight=3))
    return out

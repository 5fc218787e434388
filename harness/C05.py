"""C05 positional access"""
from io import BytesIO

import procmon_parser
from rt.common import Scenario
from spec import pml as P
from spec.large import far_file

NOTE = """Bounds: 0 to 3 (thorough 5) events in every order of storage with every flag byte, 128 to 65540 events; every sequence of 3
(4) accesses of eight kinds, every index and every slice of small bounds and steps; offsets beyond 4 GB in a sparse file."""


def sym_events(ctx, n, is64):
    """n events of different sizes and kinds, each with an arbitrary thread id; returns (events, expected)"""
    evs, exp = [], []
    for i in range(n):
        tid = ctx.u32("tid%d" % i)
        stack = [ctx.bits("f%d.%d" % (i, k), 64 if is64 else 32) for k in range(i % 3)]
        if i % 3 == 0:
            evs.append(P.event(is64, cls=4, op=0, tid=tid, stack=stack))
            path = ""
        elif i % 3 == 1:
            path = ctx.text("path%d" % i, 1)
            inf, raw = P.dstr(path, False)
            evs.append(P.event(is64, cls=2, op=1, tid=tid, stack=stack, details=inf + b"\0" * 6 + raw,
                               extra=b"\0" * 8, gap=b"g"))
        else:
            path = "p%d" % i
            inf, raw = P.dstr(path, True)
            evs.append(P.event(is64, cls=2, op=2, tid=tid, stack=stack, details=inf + raw))
        exp.append((tid, path, stack))
    return evs, exp


def view(e):
    return (e.tid, e.path, list(e.stacktrace))


def by_index(n, is64):
    def run(ctx):
        evs, exp = sym_events(ctx, n, is64)
        r = P.reader(P.pml(is64=is64, events=evs))
        ctx.eq(len(r), n, "length")
        i = ctx.int("i", -n - 3, n + 2)
        out = ctx.outcome(lambda: r[i])
        if ctx.both(i >= -n, i < n):
            ctx.check(out.ok, "an index in range is readable")
            got = view(out.value)
            for k in range(n):
                if ctx.either(i == k, i == k - n):
                    ctx.eq(got, exp[k], "event")
        else:
            ctx.check(out.is_err(IndexError), "index error out of range")
    return run


SLICES = [None, -9, -3, -2, -1, 0, 1, 2, 3, 9]


def slices(n, is64, steps):
    def run(ctx):
        evs, exp = sym_events(ctx, n, is64)
        r = P.reader(P.pml(is64=is64, events=evs))
        s = slice(ctx.choice("start", SLICES), ctx.choice("stop", SLICES), ctx.choice("step", steps))
        ctx.eq([view(e) for e in r[s]], exp[s], "slice")
    return run


def history(n, is64, length, ops):
    """any sequence of accesses, the last of which is checked; so is every one before"""
    def run(ctx):
        evs, exp = sym_events(ctx, n, is64)
        data = P.pml(is64=is64, events=evs)
        f = BytesIO(data)
        r = procmon_parser.ProcmonLogsReader(f)
        r2 = None
        pos = pos2 = 0
        for step in range(length):
            op = ctx.choice("op%d" % step, ops)
            if op == "next":
                if pos < n:
                    ctx.eq(view(next(r)), exp[pos], "next")
                    pos += 1
                else:
                    ctx.check(ctx.outcome(next, r).is_err(StopIteration), "the end is the end")
            elif op == "index":
                k = ctx.choice("k%d" % step, list(range(-n, n)))
                ctx.eq(view(r[k]), exp[k], "index")
            elif op == "oob":
                ctx.check(ctx.outcome(lambda: r[n]).is_err(IndexError), "out of range")
            elif op == "slice":
                ctx.eq([view(e) for e in r[::-1]], exp[::-1], "slice")
            elif op == "seek":
                f.seek(ctx.choice("at%d" % step, [0, 5, len(data)]))
            elif op == "len":
                ctx.eq(len(r), n, "length")
                r.processes()
                r.system_details()
            elif op == "for":
                got = [view(e) for e in r]
                ctx.eq(got, exp[pos:], "iteration yields what is left")
                pos = n
            elif op == "other":  # a second reader of the same stream
                if r2 is None:
                    f.seek(0)
                    r2 = procmon_parser.ProcmonLogsReader(f)
                if pos2 < n:
                    ctx.eq(view(next(r2)), exp[pos2], "other reader's next")
                    pos2 += 1
        rest = [view(e) for e in r]
        ctx.eq(rest, exp[pos:], "the rest, in order")
        ctx.eq(list(r), [], "and nothing after")
        ctx.check(ctx.outcome(next, r).is_err(StopIteration), "stops for good")
    return run


def scrambled(n, is64):
    """the offsets array gives the order, not the file position"""
    def run(ctx):
        import itertools
        evs, exp = sym_events(ctx, n, is64)
        order = ctx.choice("order", list(itertools.permutations(range(n))))
        at, offs = P.HEADER_SIZE, []
        for e in evs:
            offs.append(at)
            at += len(e)
        body_first = P.pml(is64=is64, events=evs, offsets=[offs[i] for i in order],
                           offset_flags=[ctx.u8("flag%d" % i) for i in range(n)])
        r = P.reader(body_first)
        ctx.eq([view(e) for e in r], [exp[i] for i in order], "order")
        ctx.eq([view(r[k]) for k in range(n)], [exp[i] for i in order], "by index")
    return run


def bad_index(ctx):
    evs, exp = sym_events(ctx, 2, 1)
    r = P.reader(P.pml(events=evs))
    bad = ctx.choice("bad", ["0", 1.0, None, (0,), b"0"])
    ctx.check(not ctx.outcome(lambda: r[bad]).ok, "not an index")


def many(n, is64):
    """many events: every one by index, from both ends, by iteration and in slices"""
    def run(ctx):
        spots = set([0, n - 1] + [k for k in (127, 128, 255, 256) if k < n])
        tids = [ctx.u32("tid%d" % i) if i in spots else 1000 + i for i in range(n)]
        evs = [P.event(is64, cls=4, op=0, tid=t, stack=[i] * (i % 3)) for i, t in enumerate(tids)]
        r = P.reader(P.pml(is64=is64, events=evs))
        ctx.eq(len(r), n, "length")
        for i in sorted(spots):
            ctx.eq((r[i].tid, r[i - n].tid), (tids[i], tids[i]), "by index")
        ctx.eq([e.tid for e in r[::17]], tids[::17], "slice")
        ctx.eq([e.tid for e in r[-3:]], tids[-3:], "slice")
        ctx.eq([e.tid for e in r], tids, "iteration")
        ctx.eq([e.tid for e in r], [], "and nothing after")
        ctx.check(ctx.outcome(lambda: r[n]).is_err(IndexError), "out of range")
        ctx.check(ctx.outcome(lambda: r[-n - 1]).is_err(IndexError), "out of range")
    return run


def very_many(n, is64):
    """more events than 16 bits count: the ends and some between, by index and in slices"""
    def run(ctx):
        spots = (0, 1, 4095, 4096, 32767, 32768, 65535, 65536, n - 1)
        tids = dict((k, ctx.u32("tid%d" % k)) for k in spots)
        plain = P.event(is64, cls=4, op=0, tid=7)
        evs = [P.event(is64, cls=4, op=0, tid=tids[i]) if i in tids else plain for i in range(n)]
        r = P.reader(P.pml(is64=is64, events=evs))
        ctx.eq(len(r), n, "length")
        for k in spots:
            ctx.eq((r[k].tid, r[k - n].tid), (tids[k], tids[k]), "by index")
        ctx.eq([e.tid for e in r[65535:]], [tids.get(k, 7) for k in range(65535, n)], "slice")
        ctx.check(ctx.outcome(lambda: r[n]).is_err(IndexError), "out of range")
    return run


def far(is64, tables_at):
    """a large file: events lie anywhere in the first 4 GB, the tables behind"""
    def run(ctx):
        tids = [ctx.u32("tid%d" % i) for i in range(4)]
        at = [P.HEADER_SIZE, 0x7fffff00, 0x80000000, 0xfffff000]
        evs = [P.event(is64, cls=4, op=0, tid=t, stack=[i, i]) for i, t in enumerate(tids)]
        r = procmon_parser.ProcmonLogsReader(far_file(is64, list(zip(at, evs)), tables_at, gap=ctx.choice("gap", [0, 1 << 32])))
        ctx.eq([e.tid for e in r], tids, "iteration")
        ctx.eq([r[i].tid for i in (3, 0, 2, 1, -1)], [tids[i] for i in (3, 0, 2, 1, -1)], "by index")
        ctx.eq((r.processes()[0].process_name, r[0].process.pid), ("p.exe", 4), "process")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    ops = ["next", "index", "oob", "slice", "seek", "len", "for", "other"]
    for is64 in (0, 1):
        for n in (0, 1, 3) + ((5,) if deep else ()):
            out.append(Scenario("index-%d-%d" % (n, is64), by_index(n, is64), "%d events, every index around them" % n))
        out.append(Scenario("scrambled-%d" % is64, scrambled(3, is64), "3 events, all orders, all flag bytes"))
    for n in (128, 255, 256, 257, 4100) + ((300, 1000, 5000) if deep else ()):
        out.append(Scenario("many-%d" % n, many(n, n % 2), "%d events, some of them with an arbitrary thread id" % n, weight=2,
                            steps=1000000))
        if n == 257:
            out.append(Scenario("very-many", very_many(65540, 1), "65540 events, 9 of them with an arbitrary thread id", weight=9,
                                steps=20000000))
    for is64 in (0, 1):
        for t in (0x100000000, 0x123456789ab):
            out.append(Scenario("far-%d-%x" % (is64, t), far(is64, t), "a file of more than 4 GB"))
    for n in (0, 3):
        out.append(Scenario("slices-%d" % n, slices(n, 1, [None, 1, -1, 2, -2, 3]),
                            "start and stop in {None,-9,-3..3,9}, 6 steps", weight=3))
    for first in ops:
        rest = ops
        out.append(Scenario("history-%s" % first, seq(first, 3, 4 if deep else 3, rest),
                            "3 events, every sequence of %d accesses of %d kinds starting with %s"
                            % (4 if deep else 3, len(ops), first), weight=5))
    out.append(Scenario("history-empty", history(0, 1, 2, ["next", "oob", "slice", "len", "for", "other"]),
                        "no events, every sequence of 2 accesses"))
    out.append(Scenario("bad-index", bad_index, "5 non-indexes"))
    return out


def seq(first, n, length, ops):
    h = history(n, 1, length, ops)

    def run(ctx):
        orig = ctx.choice

        def choice(name, options):
            if name == "op0":
                return first
            return orig(name, options)
        ctx.choice = choice
        try:
            h(ctx)
        finally:
            ctx.choice = orig
    return run
